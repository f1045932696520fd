// Property C24: account store and its Thrift encoding.
package c24

import (
	"context"
	"os"

	athrift "github.com/apache/thrift/lib/go/thrift"
	"github.com/donnie4w/gofer/keystore"
	ethrift "github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	_ "verif/codec"
	"verif/lin"
	"verif/model"

	"verif/nd"
)

type user = keystore.UserBean

func bean(n string) *user {
	return &user{Name: nd.String(n+".name", nd.Choose(n+".nl", 2)), Pwd: nd.String(n+".pwd", 1), Type: nd.Int8(n + ".type")}
}

func users(n string, max int) map[string]*user {
	switch k := nd.Choose(n, max+2); k {
	case 0:
		return nil
	default:
		m := map[string]*user{}
		for i := 1; i < k; i++ {
			m[nd.String(n+".key", nd.Choose(n+".kl", 2))] = bean(n)
		}
		return m
	}
}

func sameUsers(a, b map[string]*user) bool {
	ok := len(a) == len(b)
	for k, v := range a {
		x, has := b[k]
		if !has {
			return false
		}
		ok = nd.And(ok, nd.StrEq(x.Name, v.Name), nd.StrEq(x.Pwd, v.Pwd), x.Type == v.Type)
	}
	return ok
}

func sameOther(a, b map[string]string) bool {
	ok := len(a) == len(b)
	for k, v := range a {
		x, has := b[k]
		if !has {
			return false
		}
		ok = nd.And(ok, nd.StrEq(x, v))
	}
	return ok
}

// Decoding an encoded bean gives the bean back.
func CheckCodec() {
	kb := &keystore.KeyBean{}
	switch nd.Choose("field", 4) {
	case 0:
		kb.Admin = users("admin", 2)
		kb.Client = users("client", 0)
	case 1:
		kb.Client = users("client", 2)
		kb.Mq = users("mq", 0)
	case 2:
		kb.Mq = users("mq", 2)
		kb.Other = map[string]string{"o": nd.String("o", 1)}
	case 3:
		kb.Other = map[string]string{}
		for i := 0; i < nd.Choose("others", 3); i++ {
			kb.Other[nd.String("okey", nd.Choose("okl", 2))] = nd.String("oval", nd.Choose("ovl", 3))
		}
		kb.Admin = users("admin", 1)
	}
	bs := util.TEncode(kb)
	r, err := util.TDecode(bs, &keystore.KeyBean{})
	nd.Assert(err == nil, "decoding an encoded bean succeeds")
	nd.Assert(sameUsers(kb.Admin, r.Admin) && sameUsers(kb.Client, r.Client) && sameUsers(kb.Mq, r.Mq), "all users survive encoding")
	nd.Assert(sameOther(kb.Other, r.Other), "all other entries survive encoding")
	nd.Reach("end")
}

// A prefix of an encoded user is reported.
func CheckUser() {
	u := bean("u")
	bs := util.TEncode(u)
	r, err := util.TDecode(bs, &user{})
	nd.Assert(err == nil && nd.And(nd.StrEq(r.Name, u.Name), nd.StrEq(r.Pwd, u.Pwd), r.Type == u.Type), "a user survives encoding")
	_, err = util.TDecode(bs[:nd.Choose("cut", len(bs))], &user{})
	nd.Assert(err != nil, "a truncated user is reported")
	nd.Reach("end")
}

// Arbitrary input is decoded or reported, without panics.
func CheckMalformed() {
	bs := nd.Bytes("bs", nd.Choose("n", nd.Q(3, 5)))
	keep := string(bs)
	if nd.Bool("user") {
		_, err := util.TDecode(bs, &user{})
		nd.Assert(nd.Or(err != nil, len(bs) > 6), "a user needs its three fields")
	} else {
		kb, err := util.TDecode(bs, &keystore.KeyBean{})
		nd.Assert(kb != nil || err != nil, "decoding gives a bean or an error")
		nd.Assert(err != nil || len(bs) > 0, "nothing is no bean")
	}
	nd.Assert(nd.StrEq(string(bs), keep), "decoding does not change its input")
	nd.Reach("end")
}

// A stream with one byte altered is decoded or reported, without panics.
func CheckAltered() {
	u := &user{Name: "n", Pwd: nd.String("pwd", 1), Type: nd.Int8("type")}
	if nd.Bool("user") {
		bs := util.TEncode(u)
		bs[nd.Choose("at", len(bs))] = nd.Uint8("b")
		u, err := util.TDecode(bs, &user{})
		nd.Assert(u != nil || err != nil, "decoding gives a user or an error")
	} else {
		kb := &keystore.KeyBean{Other: map[string]string{"a": "b"}}
		if nd.Thorough() {
			kb.Mq = map[string]*user{"k": u}
		}
		bs := util.TEncode(kb)
		bs[nd.Choose("at", len(bs))] = nd.Uint8("b")
		kb, err := util.TDecode(bs, &keystore.KeyBean{})
		nd.Assert(kb != nil || err != nil, "decoding gives a bean or an error")
	}
	nd.Reach("end")
}

// A struct of the Apache library, for package thrift.
type rec struct {
	S string
	N int64
}

func (r *rec) Write(ctx context.Context, p athrift.TProtocol) error {
	p.WriteStructBegin(ctx, "rec")
	p.WriteFieldBegin(ctx, "s", athrift.STRING, 1)
	p.WriteString(ctx, r.S)
	p.WriteFieldEnd(ctx)
	p.WriteFieldBegin(ctx, "n", athrift.I64, 2)
	p.WriteI64(ctx, r.N)
	p.WriteFieldEnd(ctx)
	p.WriteFieldStop(ctx)
	return p.WriteStructEnd(ctx)
}

func (r *rec) Read(ctx context.Context, p athrift.TProtocol) error {
	if _, err := p.ReadStructBegin(ctx); err != nil {
		return err
	}
	for {
		_, t, id, err := p.ReadFieldBegin(ctx)
		if err != nil {
			return err
		}
		if t == athrift.STOP {
			break
		}
		switch {
		case id == 1 && t == athrift.STRING:
			r.S, err = p.ReadString(ctx)
		case id == 2 && t == athrift.I64:
			r.N, err = p.ReadI64(ctx)
		default:
			err = p.Skip(ctx, t)
		}
		if err != nil {
			return err
		}
		if err := p.ReadFieldEnd(ctx); err != nil {
			return err
		}
	}
	return p.ReadStructEnd(ctx)
}

// Package thrift: encoding and decoding are inverse, results independent.
func CheckThrift() {
	x := &rec{nd.String("s", nd.Choose("sl", 3)), nd.Int64("n")}
	y := &rec{nd.String("s2", 1), nd.Int64("n2")}
	if !nd.Thorough() {
		nd.Assume(nd.And(x.N >= -1<<20, x.N < 1<<20, y.N >= -64, y.N < 64))
	}
	bx := ethrift.TEncode(x)
	by := ethrift.TEncode(y)
	keep := string(bx)
	r, err := ethrift.TDecode(bx, &rec{})
	nd.Assert(err == nil && nd.And(nd.StrEq(r.S, x.S), r.N == x.N), "a struct survives encoding")
	q, err := ethrift.TDecode(by, &rec{})
	nd.Assert(err == nil && nd.And(nd.StrEq(q.S, y.S), q.N == y.N), "a struct survives encoding")
	nd.Assert(nd.StrEq(string(bx), keep), "decoding does not change its input")
	_, err = ethrift.TDecode(bx[:nd.Choose("cut", len(bx))], &rec{})
	nd.Assert(err != nil, "a truncated struct is reported")
	nd.Reach("end")
}

// ---- the store ----

type admin interface {
	Load()
	PutAdmin(name, pwd string, t int8)
	DelAdmin(name string)
	GetAdmin(name string) (*user, bool)
	AdminList() []string
	PutClient(name, pwd string, t int8)
	DelClient(name string)
	GetClient(name string) (*user, bool)
	ClientList() []string
	PutMq(name, pwd string, t int8)
	DelMq(name string)
	GetMq(name string) (*user, bool)
	MqList() []string
	PutOther(k, v string)
	DelOther(k string)
	GetOther(k string) (string, bool)
}

type sect struct {
	put  func(name, pwd string, t int8)
	del  func(string)
	get  func(string) (*user, bool)
	list func() []string
}

func sects(a admin) []sect {
	return []sect{
		{a.PutAdmin, a.DelAdmin, a.GetAdmin, a.AdminList},
		{a.PutClient, a.DelClient, a.GetClient, a.ClientList},
		{a.PutMq, a.DelMq, a.GetMq, a.MqList},
		{func(n, p string, _ int8) { a.PutOther(n, p) }, a.DelOther, func(n string) (*user, bool) {
			v, ok := a.GetOther(n)
			if !ok {
				return nil, false
			}
			return &user{Name: n, Pwd: v}, true
		}, nil},
	}
}

type ent struct {
	s         int
	name, pwd string
	t         int8
}

type ref []ent

func (r ref) find(s int, name string) (int, bool) {
	for i, e := range r {
		if e.s == s && e.name == name {
			return i, true
		}
	}
	return 0, false
}

func (r ref) put(s int, name, pwd string, t int8) ref {
	if s < 3 {
		pwd = util.Md5Str(pwd)
	} else {
		t = 0
	}
	return append(r.del(s, name), ent{s, name, pwd, t})
}

func (r ref) del(s int, name string) ref {
	if i, ok := r.find(s, name); ok {
		return append(append(ref{}, r[:i]...), r[i+1:]...)
	}
	return append(ref{}, r...)
}

// agrees compares the store with the reference.
func agrees(a admin, r ref) bool {
	good := true
	l := sects(a)
	n := [4]int{}
	for _, e := range r {
		n[e.s]++
		u, ok := l[e.s].get(e.name)
		if !ok {
			return false
		}
		good = nd.And(good, nd.StrEq(u.Name, e.name), nd.StrEq(u.Pwd, e.pwd), u.Type == e.t)
		if l[e.s].list != nil {
			c := 0
			for _, x := range l[e.s].list() {
				if x == e.name {
					c++
				}
			}
			good = nd.And(good, c == 1)
		}
	}
	for i := 0; i < 3; i++ {
		good = nd.And(good, len(l[i].list()) == n[i])
	}
	return good
}

var dir string

func start() admin {
	dir = model.Dir()
	ks, err := keystore.NewKeyStore(dir, "ks")
	nd.Assert(err == nil, "a store opens")
	keystore.KeyStore = ks
	return load()
}

func load() admin {
	var a admin = keystore.NewStoreAdmin()
	a.Load()
	return a
}

// Any history: the store is a map per section, and a store loaded afterwards
// holds the same.
func CheckStore() {
	a := start()
	nd.Assert(agrees(a, nil), "a new store is empty")
	s := nd.Choose("section", 4)
	o := nd.Choose("section2", 4)
	r := ref{}
	var names []string
	for i := 0; i < nd.Q(4, 5); i++ {
		at := s
		if i == 1 {
			at = o
		}
		x := sects(a)[at]
		name := nd.String("name", nd.Choose("nl", 2))
		names = append(names, name)
		if nd.Choose("op", 2) == 0 {
			pwd, t := nd.String("pwd", 1), nd.Int8("type")
			x.put(name, pwd, t)
			r = r.put(at, name, pwd, t)
		} else {
			x.del(name)
			r = r.del(at, name)
		}
	}
	nd.Assert(agrees(a, r), "the store holds exactly what was put and not deleted")
	for _, n := range names {
		_, ok := sects(a)[s].get(n)
		_, has := r.find(s, n)
		nd.Assert(ok == has, "the store holds exactly what was put and not deleted")
	}
	nd.Assert(agrees(load(), r), "a store loaded later holds the same")
	a.Load()
	nd.Assert(agrees(a, r), "loading again changes nothing")
	nd.Reach("end")
}

// What is stored already is loaded, whichever sections it has; anything else
// gives an empty store that works.
func CheckLoad() {
	start()
	kb := &keystore.KeyBean{}
	r := ref{}
	have := nd.Choose("have", 16)
	for i := 0; i < 4; i++ {
		if have>>i&1 == 0 {
			continue
		}
		u := &user{Name: "n", Pwd: nd.String("pwd", 1), Type: nd.Int8("type")}
		m := map[string]*user{"n": u}
		switch i {
		case 0:
			kb.Admin = m
		case 1:
			kb.Client = m
		case 2:
			kb.Mq = m
		case 3:
			kb.Other = map[string]string{"n": u.Pwd}
			u.Type = 0
		}
		r = append(r, ent{i, "n", u.Pwd, u.Type})
	}
	if nd.Bool("garbage") {
		nd.Assume(have == 0)
		g := [][]byte{nil, {0xff}, {0x1b, 0x01}}[nd.Choose("g", 3)]
		keystore.KeyStore.Write(g)
	} else {
		keystore.KeyStore.Write(util.TEncode(kb))
	}
	a := load()
	nd.Assert(agrees(a, r), "loading finds what is stored")
	s := nd.Choose("section", 4)
	sects(a)[s].put("m", "p", 1)
	r = r.put(s, "m", "p", 1)
	nd.Assert(agrees(a, r), "a loaded store can be added to")
	nd.Assert(agrees(load(), r), "a store loaded later holds the same")
	nd.Reach("end")
}

// Loading again shows what the file holds by then, whatever that is.
func CheckReload() {
	a := start()
	s := nd.Choose("section", 4)
	sects(a)[s].put("n", nd.String("pwd", 1), 1)
	r := ref{}
	switch nd.Choose("file", 4) {
	case 0: // emptied
		if f, err := os.OpenFile(dir+"/ks", os.O_WRONLY|os.O_TRUNC, 0666); err == nil {
			f.Close()
		}
	case 1: // not a bean
		keystore.KeyStore.Write([]byte{0x1b, 0x01})
	case 2: // empty bean
		keystore.KeyStore.Write(util.TEncode(&keystore.KeyBean{}))
	case 3: // written by another store
		b := load()
		sects(b)[s].del("n")
		o := nd.Choose("other", 4)
		sects(b)[o].put("m", "p", 2)
		r = r.put(o, "m", "p", 2)
	}
	a.Load()
	nd.Assert(agrees(a, r), "loading again shows what is stored")
	nd.Assert(agrees(load(), r), "a store loaded later holds the same")
	sects(a)[s].put("k", "q", 3)
	r = r.put(s, "k", "q", 3)
	nd.Assert(agrees(a, r) && agrees(load(), r), "a loaded store can be added to")
	nd.Reach("end")
}

// Concurrent operations are linearizable and race-free, and what is in memory
// is what is stored.
func CheckConc() {
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	a := start()
	s, o := nd.Choose("section", 4), nd.Choose("section2", 2)
	o = (s + o) % 4
	init := ref{}
	sects(a)[s].put("a", "p", 1)
	init = init.put(s, "a", "p", 1)
	mk := func(at, kind int) *lin.Op[ref] {
		x := sects(a)[at]
		name := []string{"a", "b"}[nd.Choose("which", 2)]
		pwd := nd.String("pwd", 1)
		var u *user
		var ok bool
		var n int
		switch kind {
		case 0:
			return &lin.Op[ref]{
				Run:   func() { x.put(name, pwd, 2) },
				Apply: func(r ref) (ref, bool) { return r.put(at, name, pwd, 2), true },
			}
		case 1:
			return &lin.Op[ref]{
				Run:   func() { x.del(name) },
				Apply: func(r ref) (ref, bool) { return r.del(at, name), true },
			}
		case 2:
			return &lin.Op[ref]{
				Run: func() { u, ok = x.get(name) },
				Apply: func(r ref) (ref, bool) {
					i, h := r.find(at, name)
					return r, ok == h && (!h || nd.StrEq(u.Pwd, r[i].pwd))
				},
			}
		}
		if x.list == nil {
			nd.Assume(false)
		}
		return &lin.Op[ref]{
			Run: func() { n = len(x.list()) },
			Apply: func(r ref) (ref, bool) {
				c := 0
				for _, e := range r {
					if e.s == at {
						c++
					}
				}
				return r, n == c
			},
		}
	}
	progs := [][]*lin.Op[ref]{{mk(s, nd.Choose("op", 2))}, {mk(o, nd.Choose("op2", 4))}}
	done := func(r ref) bool { return nd.And(agrees(a, r), agrees(load(), r)) }
	nd.Assert(lin.Run(init, progs, done), "concurrent operations are linearizable, and the stored state is the one in memory")
	nd.Reach("end")
}

// Many users, long names and values.
func CheckMany() {
	nd.MaxMake(1 << 20)
	nd.MaxSteps(60000)
	a := start()
	r := ref{}
	big := string(nd.Big("value", []int{200, 5000}[nd.Choose("size", 2)]))
	a.PutOther("big", big)
	r = r.put(3, "big", big, 0)
	n := nd.Q(70, 150)
	name := func(i int) string { return "n" + string(rune('A'+i/26)) + string(rune('a'+i%26)) }
	for i := 0; i < n; i++ {
		s := i % 4
		pwd, t := "p", int8(i)
		if i%16 < 4 {
			t = nd.Int8("type")
		}
		sects(a)[s].put(name(i), pwd, t)
		r = r.put(s, name(i), pwd, t)
		if i%3 == 2 {
			j := i / 2
			sects(a)[j%4].del(name(j))
			r = r.del(j%4, name(j))
		}
	}
	long := big[:150]
	a.PutAdmin(long, big, 3)
	r = r.put(0, long, big, 3)
	nd.Assert(agrees(a, r), "the store holds exactly what was put and not deleted")
	nd.Assert(agrees(load(), r), "a store loaded later holds the same")
	nd.Reach("end")
}
