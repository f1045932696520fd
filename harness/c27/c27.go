// Property C27: a websocket handler delivers, sends and ends.
package c27

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"os"
	"sync"
	"time"

	"github.com/donnie4w/gofer/websocket"
	wss "golang.org/x/net/websocket"
	"verif/model"

	"verif/nd"
)

// The connection is a model: what the other side sends arrives in order, and
// then the connection fails or stays open until it is closed.
type link struct {
	cfg    *wss.Config
	in     chan []byte // closed: the connection fails after what is queued
	closed chan bool
	isDown bool
	closes int
	wio    sync.Mutex
	sent   []string
	opened int
}

var (
	net_     *link
	dialErr  error
	dialed   int
	failSend bool
	errEnd   = errors.New("EOF")
)

//sym:replace golang.org/x/net/websocket.DialConfig
func dial(c *wss.Config) (*wss.Conn, error) {
	dialed++
	if dialErr != nil {
		return nil, dialErr
	}
	net_.cfg = c
	return &wss.Conn{PayloadType: wss.TextFrame}, nil
}

//sym:replace (*golang.org/x/net/websocket.Conn).Close
func closeConn(*wss.Conn) (err error) {
	nd.Point("close")
	nd.Atomic(func() {
		net_.closes++
		if net_.isDown {
			err = errors.New("use of closed network connection")
			return
		}
		net_.isDown = true
		close(net_.closed)
	})
	return
}

//sym:replace (golang.org/x/net/websocket.Codec).Send
func send(c wss.Codec, ws *wss.Conn, v any) (err error) {
	var d string
	switch x := v.(type) {
	case []byte:
		d = string(x)
	case string:
		nd.Fail("messages are sent as bytes")
	default:
		nd.Fail("messages are sent as bytes")
	}
	return frame(d)
}

// frame is one frame written; the library does not let frames mix.
func frame(d string) (err error) {
	net_.wio.Lock()
	defer net_.wio.Unlock()
	nd.Point("send")
	nd.Atomic(func() {
		switch {
		case net_.isDown:
			err = errors.New("use of closed network connection")
		case failSend:
			err = errors.New("broken pipe")
		default:
			net_.sent = append(net_.sent, d)
		}
	})
	return
}

//sym:opaque golang.org/x/net/websocket.Conn
//sym:replace (*golang.org/x/net/websocket.Conn).Write
func writeConn(ws *wss.Conn, msg []byte) (int, error) {
	nd.Assert(ws.PayloadType == wss.BinaryFrame, "messages are sent as bytes")
	if err := frame(string(msg)); err != nil {
		return 0, err
	}
	return len(msg), nil
}

//sym:replace (golang.org/x/net/websocket.Codec).Receive
func receive(c wss.Codec, ws *wss.Conn, v any) error {
	select {
	case m, ok := <-net_.in:
		if !ok {
			return errEnd
		}
		limit := ws.MaxPayloadBytes
		if limit == 0 {
			limit = wss.DefaultMaxPayloadBytes
		}
		if len(m) > limit {
			return wss.ErrFrameTooLarge
		}
		switch p := v.(type) {
		case *[]byte:
			*p = m
		case *string:
			*p = string(m)
		}
		return nil
	case <-net_.closed:
		return errors.New("use of closed network connection")
	}
}

//sym:replace (*crypto/x509.CertPool).AppendCertsFromPEM
func appendCerts(p *x509.CertPool, pem []byte) bool {
	if len(pem) == 0 || pem[0] != 'C' {
		return false
	}
	nd.Atomic(func() { pools[p] = append(pools[p], string(pem)) })
	return true
}

var pools map[*x509.CertPool][]string

func start() {
	nd.ModelOnly("the network is a model")
	net_ = &link{in: make(chan []byte, 8), closed: make(chan bool)}
	dialErr, dialed, failSend = nil, 0, false
	pools = map[*x509.CertPool][]string{}
}

// log records the callbacks.
type log struct {
	opens, closes, errs int
	msgs                []string
	raw                 [][]byte
	lastErr             error
	early, wrong        bool
	h                   *websocket.Handler
}

func (l *log) config(mask int) *websocket.Config {
	c := &websocket.Config{Url: "ws://host/path", Origin: "http://host"}
	if mask&1 == 0 {
		c.OnOpen = func(h *websocket.Handler) {
			nd.Atomic(func() { l.opens++; l.h = h; l.wrong = l.wrong || h == nil || h.Cfg != c })
		}
	}
	if mask&2 == 0 {
		c.OnMessage = func(h *websocket.Handler, m []byte) {
			nd.Atomic(func() {
				l.msgs = append(l.msgs, string(m))
				l.raw = append(l.raw, m)
				l.early = l.early || mask&1 == 0 && l.opens == 0
				l.wrong = l.wrong || h == nil || h.Cfg != c
			})
		}
	}
	if mask&4 == 0 {
		c.OnError = func(h *websocket.Handler, err error) {
			nd.Atomic(func() { l.errs++; l.lastErr = err; l.wrong = l.wrong || h == nil || h.Cfg != c })
		}
	}
	if mask&8 == 0 {
		c.OnClose = func(h *websocket.Handler) {
			nd.Atomic(func() { l.closes++; l.wrong = l.wrong || h == nil || h.Cfg != c })
		}
	}
	return c
}

// over asserts what holds once the connection has ended.
func (l *log) over(h *websocket.Handler, mask int) {
	nd.Idle()
	nd.Assert(mask&8 != 0 || l.closes == 1, "OnClose is called once when the connection has ended")
	nd.Assert(mask&4 != 0 || l.errs == 1 && l.lastErr != nil, "OnError is called once with the reason")
	nd.Assert(h.Error() != nil, "Error gives the reason once the connection has ended")
	nd.Assert(net_.isDown, "the connection is closed")
	n := len(net_.sent)
	nd.Assert(h.Send([]byte("x")) != nil && len(net_.sent) == n, "Send reports that the connection has ended")
	nd.Assert(!l.wrong, "callbacks get their handler")
	nd.Assert(!l.early, "OnOpen comes before any message")
}

// Every message is delivered once, unaltered, and the end is announced once.
func CheckMessages() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	start()
	l := &log{}
	mask := nd.Choose("missing callbacks", 16)
	k := nd.Choose("messages", 4)
	var want []string
	put := func() {
		m := nd.Bytes("m", nd.Choose("len", 2))
		want = append(want, string(m))
		net_.in <- m
	}
	for i := 0; i < k/2; i++ {
		put()
	}
	h, err := websocket.NewHandler(l.config(mask))
	nd.Assert(err == nil && h != nil, "a connection that opens gives a handler")
	for i := k / 2; i < k; i++ {
		put()
	}
	nd.Idle()
	nd.Assert(mask&1 != 0 || l.opens == 1, "OnOpen is called once")
	nd.Assert(h.Error() == nil, "Error gives nothing while the connection lives")
	nd.Assert(l.closes == 0 && l.errs == 0 && !net_.isDown, "the connection stays open")
	delivered(l, want, mask)
	if nd.Bool("fail") {
		close(net_.in)
	} else {
		nd.Assert(h.Close() == nil, "Close closes the connection")
	}
	l.over(h, mask)
	delivered(l, want, mask)
	nd.Reach("end")
}

func delivered(l *log, want []string, mask int) {
	if mask&2 != 0 {
		return
	}
	nd.Assert(len(l.msgs) == len(want), "every message is delivered once")
	used := make([]bool, len(want))
	for i, m := range l.msgs {
		nd.Assert(nd.StrEq(string(l.raw[i]), m), "a delivered message stays as it is")
		found := false
		for j, w := range want {
			if !used[j] && len(m) == len(w) && m == w {
				used[j], found = true, true
				break
			}
		}
		nd.Assert(found, "messages are delivered unaltered")
	}
}

// Senders do not disturb each other, and Close may come at any time.
func CheckSend() {
	nd.RacesAreBugs()
	start()
	what := nd.Choose("end", 3)
	if what == 0 {
		nd.Preemptions(nd.Q(2, 3))
	} else {
		nd.Preemptions(nd.Q(1, 2))
	}
	l := &log{}
	h, _ := websocket.NewHandler(l.config(0))
	a, b := nd.Bytes("a", nd.Choose("alen", 3)), nd.Bytes("b", 1)
	wa, wb := string(a), string(b)
	var ea, eb error
	done := make(chan bool, 3)
	go func() { ea = h.Send(a); done <- true }()
	go func() { eb = h.Send(b); done <- true }()
	switch what {
	case 1:
		h.Close()
	case 2:
		close(net_.in)
	}
	<-done
	<-done
	nd.Assert(nd.And(nd.StrEq(string(a), wa), nd.StrEq(string(b), wb)), "Send leaves the message alone")
	if what == 0 {
		nd.Assert(ea == nil && eb == nil, "Send succeeds while the connection lives")
	}
	n := 0
	if ea == nil {
		n++
	}
	if eb == nil {
		n++
	}
	nd.Assert(len(net_.sent) == n, "exactly the messages sent without an error are on their way")
	for _, m := range net_.sent {
		nd.Assert(ea == nil && len(m) == len(wa) && nd.StrEq(m, wa) || eb == nil && len(m) == len(wb) && nd.StrEq(m, wb), "messages are sent whole")
	}
	if what == 0 {
		nd.Idle()
		nd.Assert(h.Error() == nil && l.closes == 0, "sending ends nothing")
		h.Close()
	}
	l.over(h, 0)
	nd.Reach("end")
}

// A failed Send is reported.
func CheckSendFails() {
	start()
	l := &log{}
	h, _ := websocket.NewHandler(l.config(0))
	failSend = nd.Bool("fail")
	m := nd.String("m", 2)
	nd.Assert((h.Send([]byte(m)) != nil) == failSend, "a failing Send is reported")
	failSend = false
	if h.Error() == nil {
		nd.Assert(h.Send([]byte(m)) == nil, "Send succeeds while the connection lives")
	}
	h.Close()
	l.over(h, 0)
	nd.Reach("end")
}

// Closing while messages arrive, from the callbacks, repeatedly.
func CheckClose() {
	nd.Preemptions(nd.Q(2, 3))
	nd.RacesAreBugs()
	start()
	l := &log{}
	c := l.config(0)
	where := nd.Choose("where", 5)
	inner := func(h *websocket.Handler, n int) {
		if n == where {
			h.Close()
		}
	}
	open, msg, fail, end := c.OnOpen, c.OnMessage, c.OnError, c.OnClose
	c.OnOpen = func(h *websocket.Handler) { open(h); inner(h, 0) }
	c.OnMessage = func(h *websocket.Handler, m []byte) { msg(h, m); inner(h, 1) }
	c.OnError = func(h *websocket.Handler, err error) { fail(h, err); inner(h, 2) }
	c.OnClose = func(h *websocket.Handler) { end(h); inner(h, 3) }
	m := nd.String("m", 1)
	net_.in <- []byte(m)
	h, err := websocket.NewHandler(c)
	nd.Assert(err == nil && h != nil, "a connection that opens gives a handler")
	switch where {
	case 1:
	case 4:
		go h.Close()
		fallthrough
	default:
		h.Close()
		nd.Assert(h.Error() != nil, "a handler that was closed says so")
		nd.Assert(h.Send([]byte("late")) != nil && len(net_.sent) == 0, "nothing is sent on a closed connection")
	}
	l.over(h, 0)
	nd.Assert(l.opens == 1, "OnOpen is called once")
	nd.Assert(len(l.msgs) == 0 || len(l.msgs) == 1 && nd.StrEq(l.msgs[0], m), "a message is delivered at most once")
	nd.Reach("end")
}

// Connecting: the configuration is used as given, and failures give no handler.
func CheckDial() {
	start()
	l := &log{}
	c := l.config(0)
	urls := []string{"ws://host:80/p?q=1", "wss://host/p", "http://host", "", "//host/p", "wsx://host", "ws://ho st"}
	u := nd.Choose("url", len(urls))
	c.Url = urls[u]
	badOrigin := nd.Bool("bad origin")
	if badOrigin {
		c.Origin = "x y"
	}
	c.TimeOut = time.Duration(nd.Int64("timeout"))
	certs := nd.Choose("certs", 7)
	bad := false
	switch certs {
	case 1:
		c.CertBytes = [][]byte{[]byte("C1"), []byte("C2")}
	case 2:
		c.CertBytes = [][]byte{[]byte("C1"), []byte("x")}
		bad = true
	case 3, 4, 5:
		d := model.Dir()
		os.WriteFile(d+"/1", []byte("C1"), 0o600)
		c.CertFiles = []string{d + "/1", d + "/2"}
		switch certs {
		case 3:
			os.WriteFile(d+"/2", []byte("C2"), 0o600)
		case 4:
			os.WriteFile(d+"/2", []byte("x"), 0o600)
			bad = true
		case 5:
			bad = true
		}
	}
	if nd.Bool("dial fails") {
		dialErr = errors.New("connection refused")
	}
	h, err := websocket.NewHandler(c)
	nd.Idle()
	nd.Assert((err == nil) == (h != nil), "NewHandler gives a handler or an error")
	good := u < 2 && !badOrigin && !(u == 1 && bad)
	nd.Assert(good || err != nil, "an unusable configuration is reported")
	nd.Assert(good || dialed == 0, "an unusable configuration is not dialled")
	nd.Assert(!good || dialed == 1, "a usable configuration is dialled once")
	nd.Assert(!good || (err != nil) == (dialErr != nil), "a failing dial is reported")
	if err != nil {
		nd.Assert(l.opens == 0 && l.closes == 0 && l.errs == 0, "without a connection there are no callbacks")
		nd.Reach("end")
		return
	}
	nd.Assert(l.opens == 1 && l.h == h, "OnOpen is called once")
	w := net_.cfg
	nd.Assert(w.Location != nil && w.Location.String() == urls[u] && w.Origin != nil && w.Origin.String() == "http://host", "the address and origin are those given")
	if c.TimeOut > 0 {
		nd.Assert(w.Dialer != nil && w.Dialer.Timeout == c.TimeOut, "the timeout is the one given")
	} else {
		nd.Assert(w.Dialer == nil || w.Dialer.Timeout <= 0, "there is no timeout unless given")
	}
	t := w.TlsConfig
	if u == 1 && (certs == 1 || certs == 3) {
		nd.Assert(t != nil && !t.InsecureSkipVerify && trusts(t), "the given certificates are required")
	}
	h.Close()
	l.over(h, 0)
	nd.Reach("end")
}

func trusts(t *tls.Config) bool {
	p := pools[t.RootCAs]
	return len(p) == 2 && p[0] == "C1" && p[1] == "C2"
}

// Messages of any size.
func CheckLarge() {
	start()
	nd.MaxMake(1 << 20)
	l := &log{}
	h, err := websocket.NewHandler(l.config(0))
	nd.Assert(err == nil && h != nil, "a connection that opens gives a handler")
	m := nd.Big("m", []int{200, 5000, 70000}[nd.Choose("size", nd.Q(2, 3))])
	want := []string{string(m)}
	net_.in <- m
	nd.Idle()
	delivered(l, want, 0)
	s := nd.Big("s", []int{200, 5000, 70000}[nd.Choose("send size", nd.Q(2, 3))])
	nd.Assert(h.Send(s) == nil, "Send succeeds while the connection lives")
	nd.Assert(len(net_.sent) == 1 && nd.StrEq(net_.sent[0], string(s)), "messages are sent whole")
	h.Close()
	l.over(h, 0)
	nd.Reach("end")
}
