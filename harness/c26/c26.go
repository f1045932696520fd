// Property C26: Post makes one POST request and gives the whole answer.
package c26

import (
	"errors"
	"io"
	"net/http"

	"github.com/donnie4w/gofer/httpclient"
	"verif/model"

	"verif/nd"
)

var _ = model.Dir

// What the server saw and how it answers.
type exchange struct {
	req      *http.Request
	body     string
	insecure bool
	keeps    bool
	resp     *body
}

type body struct {
	data   []byte
	fail   bool
	closed int
	eof    bool
}

var (
	seen     []*exchange
	doErr    error
	bodyFail bool
	answer   []byte
	status   int
	piece    int // what a Read gives of a large body
	errNet   = errors.New("connection reset")
)

func (b *body) Read(p []byte) (int, error) {
	nd.Assert(b.closed == 0, "the answer is read before it is closed")
	if len(b.data) == 0 {
		if b.fail {
			return 0, errNet
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := 1
	if piece > 1 {
		n = min(piece, len(p), len(b.data))
	} else if len(b.data) > 1 && len(p) > 1 && nd.Bool("long read") {
		n = 2
	}
	copy(p, b.data[:n])
	b.data = b.data[n:]
	if len(b.data) == 0 && !b.fail && nd.Bool("eof with data") {
		return n, io.EOF
	}
	return n, nil
}

func (b *body) Close() error { b.closed++; return nil }

//sym:replace (*net/http.Client).Do
func do(c *http.Client, req *http.Request) (resp *http.Response, err error) {
	x := &exchange{req: req}
	if req.Body != nil {
		buf := make([]byte, max(piece, 1))
		for {
			n, e := req.Body.Read(buf)
			x.body += string(buf[:n])
			if e == io.EOF {
				break
			}
			nd.Assert(e == nil, "the request's body can be read")
		}
		req.Body.Close()
	}
	nd.Assert(req.ContentLength == int64(len(x.body)), "the request's length is that of its body")
	x.keeps = true
	if t, ok := c.Transport.(*http.Transport); ok && t != nil {
		x.insecure = t.TLSClientConfig != nil && t.TLSClientConfig.InsecureSkipVerify
		x.keeps = !t.DisableKeepAlives
	}
	nd.Point("do")
	fails := false
	nd.Atomic(func() {
		seen = append(seen, x)
		fails = doErr != nil
	})
	if fails {
		return nil, doErr
	}
	x.resp = &body{data: append([]byte(nil), answer...), fail: bodyFail}
	if len(x.body) == 1 && status == 0 {
		x.resp.data = append(x.resp.data, x.body...)
	}
	length := int64(-1)
	if nd.Bool("announced") {
		length = int64(len(x.resp.data))
		if bodyFail {
			length++
		}
	}
	return &http.Response{StatusCode: 200 + status, Body: x.resp, ContentLength: length, Header: http.Header{}, Request: req}, nil
}

//sym:replace net/http.sanitizeCookieName
func sanitizeCookieName(n string) string {
	r := []byte(n)
	for i, c := range r {
		if c == '\n' || c == '\r' {
			r[i] = '-'
		}
	}
	return string(r)
}

//sym:replace (*net/http.Transport).CloseIdleConnections
func closeIdle(t *http.Transport) {
	nd.Atomic(func() {
		for _, x := range seen {
			x.keeps = false
		}
	})
}

func start() {
	nd.ModelOnly("the network is a model")
	seen, doErr, bodyFail, answer, status, piece = nil, nil, false, nil, 0, 0
}

// One request with exactly what was given, the whole answer or an error.
func CheckPost() {
	start()
	urls := []string{"http://host:80/p?q=1", "https://host/p", "ht tp://x", "http://[::1", "http://host/%zz"}
	u := nd.Choose("url", len(urls))
	if u >= 2 {
		_, err := httpclient.Post([]byte("x"), urls[u])
		nd.Assert(err != nil && len(seen) == 0, "an unusable address is reported")
		nd.Reach("end")
		return
	}
	bs := nd.Bytes("body", nd.Choose("body", 3))
	was := string(bs)
	answer = nd.Bytes("answer", nd.Choose("answer", nd.Q(3, 5)))
	status = 1 + 299*nd.Choose("status", 2)
	fail := nd.Choose("fails", 3)
	switch fail {
	case 1:
		doErr = errNet
	case 2:
		bodyFail = true
	}
	via := nd.Choose("function", 3)
	cls := false
	var hdr map[string]string
	var cookie *http.Cookie
	var r []byte
	var err error
	switch via {
	case 0:
		r, err = httpclient.Post(bs, urls[u])
	case 1:
		cls = nd.Bool("close")
		r, err = httpclient.Post2(bs, cls, urls[u])
	case 2:
		cls = nd.Bool("close")
		hdr = headers()
		if nd.Bool("cookie") {
			cookie = &http.Cookie{Name: "n", Value: "v"}
		}
		r, err = httpclient.Post3(bs, cls, urls[u], hdr, cookie)
	}
	check(u, urls[u], was, cls, hdr, cookie)
	nd.Assert((err != nil) == (fail != 0), "a failing exchange is reported")
	if err == nil {
		nd.Assert(nd.BytesEq(r, answer), "the whole answer is returned")
	} else {
		nd.Assert(len(r) == 0, "a broken answer is not passed off as the answer")
	}
	nd.Assert(nd.StrEq(string(bs), was), "the caller's data stay as they are")
	nd.Reach("end")
}

func headers() map[string]string {
	switch nd.Choose("headers", 4) {
	case 0:
		return map[string]string{}
	case 1:
		return map[string]string{"Content-Type": "application/json", "x-a": nd.String("value", 1)}
	case 2:
		return map[string]string{"Cookie": "m=w", "User-Agent": "u"}
	}
	return nil
}

func check(u int, url, want string, cls bool, hdr map[string]string, cookie *http.Cookie) {
	nd.Assert(len(seen) == 1, "there is exactly one request")
	x := seen[0]
	nd.Assert(x.req.Method == "POST", "the request is a POST")
	nd.Assert(x.req.URL != nil && x.req.URL.String() == url, "the request goes to the address given")
	nd.Assert(nd.StrEq(x.body, want), "the request carries the data given")
	nd.Assert(!cls || x.req.Close, "the connection is closed if asked for")
	nd.Assert(u != 1 || x.insecure, "any certificate is accepted for https")
	nd.Assert(!x.keeps || x.req.Close, "no connection is left open")
	nd.Assert(x.resp == nil || x.resp.closed >= 1, "the answer is closed")
	n := 0
	for k, v := range hdr {
		n++
		if k == "Cookie" && cookie != nil {
			n--
			continue
		}
		nd.Assert(x.req.Header.Get(k) == v && len(x.req.Header.Values(k)) == 1, "the headers are those given")
	}
	if cookie != nil {
		n++
		c := x.req.Cookies()
		if _, ok := hdr["Cookie"]; ok {
			nd.Assert(len(c) == 2, "a cookie goes along with those of the headers")
			if c[0].Name == "m" {
				c[0], c[1] = c[1], c[0]
			}
			nd.Assert(c[1].Name == "m" && c[1].Value == "w", "the cookie goes along with those of the headers")
			c = c[:1]
		}
		nd.Assert(len(c) == 1 && c[0].Name == cookie.Name && c[0].Value == cookie.Value, "the cookie is the one given")
	}
	nd.Assert(len(x.req.Header) == n, "there are no other headers")
}

// Concurrent requests do not disturb each other.
func CheckConcurrent() {
	start()
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	a, b := nd.Bytes("a", 1), nd.Bytes("b", 1)
	var ra, rb []byte
	var ea, eb error
	hdr := map[string]string{"A": "1"}
	done := make(chan bool, 2)
	ua := []string{"http://host/a", "https://host/a"}[nd.Choose("scheme", 2)]
	go func() { ra, ea = httpclient.Post3(a, true, ua, hdr, nil); done <- true }()
	go func() { rb, eb = httpclient.Post3(b, false, "https://host/b", nil, nil); done <- true }()
	<-done
	<-done
	nd.Assert(ea == nil && eb == nil && len(seen) == 2, "both requests are made")
	nd.Assert(nd.And(nd.BytesEq(ra, a), nd.BytesEq(rb, b)), "each caller gets its own answer")
	for _, x := range seen {
		nd.Assert((x.req.URL.Path == "/a") == (x.req.Header.Get("A") == "1"), "each request has its own headers")
		nd.Assert((x.req.URL.Path == "/a") == x.req.Close, "each request has its own options")
		nd.Assert(x.insecure || x.req.URL.Scheme == "http", "each request has its own transport")
	}
	nd.Reach("end")
}

// Data and answers of any size.
func CheckLarge() {
	start()
	nd.MaxMake(1 << 20)
	bs := nd.Big("body", []int{600, 5000, 70000}[nd.Choose("size", nd.Q(2, 3))])
	was := string(bs)
	answer = nd.Big("answer", []int{600, 5000, 70000}[nd.Choose("answer size", nd.Q(2, 3))])
	status = 0
	piece = []int{500, 4096}[nd.Choose("piece", 2)]
	r, err := httpclient.Post2(bs, nd.Bool("close"), "http://host/p")
	nd.Assert(err == nil && nd.BytesEq(r, answer), "the whole answer is returned")
	nd.Assert(len(seen) == 1 && nd.StrEq(seen[0].body, was), "the request carries the data given")
	nd.Reach("end")
}
