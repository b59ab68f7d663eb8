package h

import (
	"errors"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/nd"
	"verif/vtime"
)

// call is one operation of a concurrent history on one key, and what it returned.
type call struct {
	op  int // 0 put, 1 get, 2 update, 3 delete
	v   byte
	ok  bool
	got byte
}

func (c *call) run(p io.Provider, id []byte) {
	var err error
	switch c.op {
	case 0:
		err = p.Put(bg, id, 0, []byte{c.v})
	case 1:
		var b []byte
		b, err = p.Get(bg, id, 0)
		if err == nil && len(b) == 1 {
			c.got = b[0]
		}
	case 2:
		err = p.Update(bg, id, 0, []byte{c.v})
	case 3:
		err = p.Delete(bg, id, 0)
	}
	c.ok = err == nil
}

// explains tries every order of the remaining operations of the threads.
func explains(th [][]*call, pos []int, have bool, v byte, endHave bool, endV byte) bool {
	done := true
	for t := range th {
		if pos[t] == len(th[t]) {
			continue
		}
		done = false
		c := th[t][pos[t]]
		h, w, ok := have, v, false
		switch c.op {
		case 0:
			ok = c.ok == !have
			if !have {
				h, w = true, c.v
			}
		case 1:
			ok = c.ok == have && (!have || c.got == v)
		case 2:
			ok = c.ok == have
			if have {
				w = c.v
			}
		case 3:
			ok = c.ok
			h = false
		}
		if !ok {
			continue
		}
		next := append([]int{}, pos...)
		next[t]++
		if explains(th, next, h, w, endHave, endV) {
			return true
		}
	}
	return done && have == endHave && (!have || v == endV)
}

//prop: C18 share=2
// Concurrent operations on one key of a provider take effect one after the other: results and final contents are
// those of some order.
func H18Provider() {
	which := nd.Choose("shape", 3)
	if which == 0 {
		nd.SetPreempt(tiered(2, 3), true)
	} else {
		nd.SetPreempt(tiered(1, 2), true)
	}
	var p io.Provider
	if nd.Choose("provider", 2) == 0 {
		m := io.NewMem()
		p = &m
	} else {
		p = newBolt()
	}
	k := []byte("k")
	have := nd.Choose("have", 2) == 1
	if have {
		must(p.Put(bg, k, 0, []byte{9}), "Put")
	}
	shape := [][]int{{1, 1}, {2, 1}, {1, 1, 1}}[which]
	var th [][]*call
	var fs []func()
	n := byte(0)
	for _, l := range shape {
		var cs []*call
		for i := 0; i < l; i++ {
			n++
			// reads by the second operation of a thread only
			ops := 3
			if i > 0 {
				ops = 1
			}
			o := nd.Choose("op", ops)
			c := &call{op: []int{0, 2, 3}[o], v: n}
			if i > 0 {
				c.op = 1
			}
			cs = append(cs, c)
		}
		th = append(th, cs)
		fs = append(fs, func() {
			for _, c := range cs {
				c.run(p, clone(k))
			}
		})
	}
	nd.Par(fs...)
	end := &call{op: 1}
	end.run(p, k)
	nd.Reach("end")
	nd.Assert(explains(th, make([]int, len(th)), have, 9, end.ok, end.got), "concurrent operations on a key take effect one after the other")
}

//prop: C18
// Concurrent operations on different keys do not affect each other.
func H18Keys() {
	nd.SetPreempt(tiered(2, 3), true)
	m := io.NewMem()
	ks := [][]byte{[]byte("a"), []byte("b")}
	var th [2][]*call
	for t := range th {
		for i := 0; i < 2; i++ {
			th[t] = append(th[t], &call{op: nd.Choose("op", 4), v: byte(2*t + i + 1)})
		}
	}
	nd.Par(func() {
		for _, c := range th[0] {
			c.run(&m, ks[0])
		}
	}, func() {
		for _, c := range th[1] {
			c.run(&m, ks[1])
		}
	})
	for t := range th {
		end := &call{op: 1}
		end.run(&m, ks[t])
		nd.Assert(explains([][]*call{th[t]}, []int{0}, false, 0, end.ok, end.got), "operations on different keys do not affect each other")
	}
}

// memWorld is a D1 instance over the library's memory store.
func memWorld() (*d1.D1, *idp) {
	m := io.NewMem()
	ip := &idp{}
	ip.add("a", ident("alice", scopeAll))
	ip.add("b", ident("bob", scopeAll))
	d, err := d1.New(bg, keyProvider(), &m, ip)
	must(err, "creating an instance")
	return &d, ip
}

// life is what a user does with one object.
func life(d *d1.D1, tok, text string, script int) {
	oid, err := d.Encrypt(bg, tok, object(text, "aad"), "team")
	must(err, "Encrypt")
	switch script {
	case 1:
		text += "2"
		must(d.Update(bg, tok, oid, object(text, "aad")), "Update")
	case 2:
		must(d.AddGroupsToAccess(bg, tok, oid, "g"), "AddGroupsToAccess")
	}
	o, err := d.Decrypt(bg, tok, oid)
	nd.Assert(err == nil && sameObject(o, *object(text, "aad")), "an object is what its user made of it")
	g, err := d.GetAccessGroups(bg, tok, oid)
	n := 2
	if script == 2 {
		n = 3
	}
	nd.Assert(err == nil && len(g) == n, "an access list is what its user made of it")
	if script == 3 {
		must(d.Delete(bg, tok, oid), "Delete")
		_, err = d.Decrypt(bg, tok, oid)
		nd.Assert(err != nil, "a deleted object is gone")
	}
}

//prop: C18 share=2
// Users working at the same time on different objects of one instance do not affect each other.
func H18Objects() {
	nd.SetPreempt(tiered(1, 2), true)
	d, _ := memWorld()
	s1, s2 := nd.Choose("s1", 4), nd.Choose("s2", 4)
	nd.Par(func() { life(d, "a", "first", s1) }, func() { life(d, "b", "second", s2) })
	nd.Reach("end")
}

//prop: C18
// Concurrent additions to an index: every addition that reports success is found, the others leave nothing behind;
// other keywords and earlier entries are unaffected.
func H18Index() {
	nd.SetPreempt(tiered(2, 3), true)
	m := io.NewMem()
	ip := &idp{}
	ip.add("t", ident("u", id.ScopeIndex))
	x, err := index.NewSecureIndex(bg, keyProvider(), &m, ip)
	must(err, "creating the index")
	want := []string{}
	if nd.Choose("before", 2) == 1 {
		must(x.Add(bg, "t", "w", "old"), "Add")
		want = append(want, "old")
	}
	kw2 := []string{"w", "v"}[nd.Choose("keyword", 2)]
	var e1, e2 error
	var seen []string
	var se error
	fs := []func(){
		func() { e1 = x.Add(bg, "t", "w", "one") },
		func() { e2 = x.Add(bg, "t", kw2, "two") },
	}
	search := nd.Choose("search", 2) == 1
	if search {
		fs[1] = func() { seen, se = x.Search(bg, "t", "w") }
	}
	nd.Par(fs...)
	nd.Assert(e1 == nil || errors.Is(e1, index.ErrNodeAlreadyExists), "an addition succeeds or reports the conflict")
	nd.Assert(e2 == nil || errors.Is(e2, index.ErrNodeAlreadyExists), "an addition succeeds or reports the conflict")
	nd.Assert(e1 == nil || e2 == nil, "one of two additions succeeds")
	if search {
		nd.Assert(se == nil && (bagEq(seen, want) || bagEq(seen, append(append([]string{}, want...), "one"))), "a search during an addition returns the entries before or after it")
	}
	if kw2 == "v" || search {
		nd.Assert(e1 == nil && e2 == nil, "additions under different keywords do not conflict")
	}
	if e1 == nil {
		want = append(want, "one")
	} else {
		nd.Reach("conflict")
	}
	other := []string{}
	if e2 == nil && !search {
		if kw2 == "w" {
			want = append(want, "two")
		} else {
			other = append(other, "two")
		}
	}
	r, err := x.Search(bg, "t", "w")
	nd.Assert(err == nil && bagEq(r, want), "every addition that reported success is found, nothing else")
	r, err = x.Search(bg, "t", "v")
	nd.Assert(err == nil && bagEq(r, other), "other keywords are unaffected")
}

//prop: C18
// Logins, look-ups and tokens of several users at the same time do not affect each other.
func H18Identity() {
	nd.SetPreempt(tiered(2, 3), true)
	vtime.Set(epoch, 0)
	m := io.NewMem()
	p, err := id.NewStandalone(saConfig(), &m)
	must(err, "creating the identity provider")
	run := func(scope id.Scope, group bool) func() {
		return func() {
			uid, pw, err := p.NewUser(bg, scope)
			must(err, "NewUser")
			t, _, err := p.LoginUser(bg, uid, pw)
			must(err, "LoginUser")
			n := 0
			if group {
				_, err := p.NewGroup(bg, t, scope)
				must(err, "NewGroup")
				n = 1
			}
			i, err := p.GetIdentity(bg, t)
			nd.Assert(err == nil && i.ID == uid && i.Scopes == scope && len(i.Groups) == n, "a token identifies the user that logged in")
		}
	}
	nd.Par(run(id.ScopeEncrypt, nd.Choose("g", 2) == 1), run(id.ScopeDecrypt, false))
	nd.Reach("end")
}

//prop: C18
// Tokens made and opened at the same time keep their contents.
func H18Tokens() {
	nd.SetPreempt(tiered(2, 3), true)
	vtime.Set(epoch, 0)
	d, _ := memWorld()
	run := func(s string) func() {
		return func() {
			t, err := d.CreateToken(bg, []byte(s))
			must(err, "CreateToken")
			c, err := d.GetTokenContents(bg, &t)
			nd.Assert(err == nil && string(c) == s, "a token keeps its contents")
		}
	}
	nd.Par(run("first"), run("second"))
	nd.Reach("end")
}

//prop: C18
// Two operations at the same time on one object: whatever their order, a decryption yields a version that was
// stored, and nobody gains access who was not given it. That both take effect is a recorded finding: the last writer
// of a record wins.
func H18SameObject() {
	nd.SetPreempt(tiered(1, 2), true)
	d, ip := memWorld()
	ip.add("m", ident("mallory", scopeAll))
	oid, err := d.Encrypt(bg, "a", object("v0", "aad"), "bob", "g0")
	must(err, "Encrypt")
	var es [2]error
	mk := func(i int, tok string, op int) func() {
		return func() {
			switch op {
			case 0:
				es[i] = d.Update(bg, tok, oid, object([]string{"v1", "v2"}[i], "aad"))
			case 1:
				es[i] = d.AddGroupsToAccess(bg, tok, oid, []string{"g1", "g2"}[i])
			case 2:
				es[i] = d.RemoveGroupsFromAccess(bg, tok, oid, "g0")
			case 3:
				var o data.Object
				o, es[i] = d.Decrypt(bg, tok, oid)
				if es[i] == nil {
					nd.Assert(versions(o), "a decryption yields a version that was stored")
				}
			case 4:
				es[i] = d.AuthorizeIdentity(bg, "m", oid)
				nd.Assert(es[i] != nil, "nobody gains access who was not given it")
				es[i] = nil
			}
		}
	}
	a, b := nd.Choose("op1", 3), nd.Choose("op2", 5)
	nd.Par(mk(0, "a", a), mk(1, "b", b))
	both := b < 3
	nd.Known("concurrent-changes", es[0] == nil && es[1] == nil, both || a == 0 && b == 3, "operations on one object do not make each other fail")
	o, err := d.Decrypt(bg, "a", oid)
	if err == nil {
		nd.Reach("decrypted")
		nd.Assert(versions(o), "a decryption yields a version that was stored")
	}
	nd.Known("concurrent-changes", err == nil, both, "an object can be decrypted after concurrent operations")
	g, err := d.GetAccessGroups(bg, "a", oid)
	nd.Assert(err == nil, "the access list can be read after concurrent operations")
	if err != nil {
		nd.Stop()
	}
	for _, n := range []string{"alice", "bob"} {
		_, ok := g[n]
		nd.Assert(ok, "members that nobody removed stay members")
	}
	for n := range g {
		nd.Assert(member([]string{"alice", "bob", "g0", "g1", "g2"}, n), "nobody gains access who was not given it")
	}
	_, g0 := g["g0"]
	_, g1 := g["g1"]
	_, g2 := g["g2"]
	nd.Known("concurrent-changes", g1 == (a == 1) && g2 == (b == 1) && g0 == (a != 2 && b != 2), both, "every change of the access list takes effect")
}

func versions(o data.Object) bool {
	return sameObject(o, *object("v0", "aad")) || sameObject(o, *object("v1", "aad")) || sameObject(o, *object("v2", "aad"))
}

//prop: C18
// A deletion from an index at the same time as another operation under the same keyword: a search never returns what
// was never added. That no other entry is lost is a recorded finding.
func H18IndexDelete() {
	nd.SetPreempt(tiered(1, 2), true)
	m := io.NewMem()
	ip := &idp{}
	ip.add("t", ident("u", id.ScopeIndex))
	x, err := index.NewSecureIndex(bg, keyProvider(), &m, ip)
	must(err, "creating the index")
	names := []string{"a", "b", "c"}[:nd.Choose("n", 2)+2]
	for _, n := range names {
		must(x.Add(bg, "t", "w", n), "Add")
	}
	victim := names[nd.Choose("victim", len(names))]
	var e2 error
	op := nd.Choose("op", 3)
	nd.Par(func() { _ = x.Delete(bg, "t", "w", victim) }, func() {
		switch op {
		case 0:
			e2 = x.Add(bg, "t", "w", "new")
		case 1:
			e2 = x.Delete(bg, "t", "w", names[0])
		case 2:
			r, err := x.Search(bg, "t", "w")
			for _, s := range r {
				nd.Assert(err == nil && member(names, s), "a search returns only what was added")
			}
		}
	})
	r, err := x.Search(bg, "t", "w")
	for _, s := range r {
		nd.Assert(member(names, s) || op == 0 && s == "new", "a search returns only what was added")
	}
	want := without(names, victim)
	if op == 0 && e2 == nil {
		want = append(want, "new")
	}
	if op == 1 {
		want = without(want, names[0])
	}
	nd.Known("concurrent-index-delete", err == nil && bagEq(r, want), op < 2, "deletion removes exactly the deleted entries")
	must(x.Add(bg, "t", "v", "other"), "Add")
}

var _ = uuid.Nil

//prop: C18
// Any two calls at the same time on one instance of each part, over one store and with the same arguments, share no
// memory without ordering their accesses, and neither panics.
func H18Calls() {
	nd.SetPreempt(tiered(0, 1), nd.Tier() == 1)
	vtime.Set(epoch, 0)
	var st io.Provider
	if nd.Choose("provider", 2) == 0 {
		m := io.NewMem()
		st = &m
	} else {
		st = newBolt()
	}
	e := newEverything(st)
	a := nd.Choose("op1", calls)
	b := a + nd.Choose("op2", calls-a)
	nd.Par(func() { _ = e.call(bg, a) }, func() { _ = e.call(bg, b) })
	nd.Reach("end")
}

//prop: C18
// One cryptor, key wrapper, tagger, cipher or password hasher used by two callers at the same time gives each what it
// would get on its own.
func H18Crypto() {
	nd.SetPreempt(tiered(1, 2), true)
	key := make([]byte, 32)
	c, err := crypto.NewAESCryptor(clone(key))
	must(err, "NewAESCryptor")
	k, err := crypto.NewKWP(clone(key))
	must(err, "NewKWP")
	t, err := crypto.NewKMAC256Tagger(clone(key))
	must(err, "NewKMAC256Tagger")
	a := aead()
	h := crypto.NewPasswordHasher()
	tags := map[string][]byte{}
	for _, s := range []string{"one", "two"} {
		tags[s], err = t.Tag(s)
		must(err, "Tag")
	}
	run := func(op int, s string) func() {
		switch op {
		case 0:
			return func() {
				wk, ct, err := c.Encrypt(s, "aad")
				must(err, "Encrypt")
				var r string
				nd.Assert(c.Decrypt(&r, "aad", wk, ct) == nil && r == s, "a cryptor decrypts what it encrypted")
			}
		case 1:
			return func() {
				b := make([]byte, 24)
				copy(b, s)
				w, err := k.Wrap(clone(b))
				must(err, "Wrap")
				r, err := k.Unwrap(w)
				nd.Assert(err == nil && nd.Eq(r, b), "a key wrapper unwraps what it wrapped")
			}
		case 2:
			return func() {
				g, err := t.Tag(s)
				nd.Assert(err == nil && nd.Eq(g, tags[s]), "a tagger gives equal data equal tags")
			}
		case 3:
			return func() {
				ct, err := a.Encrypt([]byte(s), []byte("aad"), clone(key))
				must(err, "Encrypt")
				r, err := a.Decrypt(ct, []byte("aad"), clone(key))
				nd.Assert(err == nil && string(r) == s, "the cipher decrypts what it encrypted")
			}
		}
		return func() {
			pw, sh, err := h.GeneratePassword()
			must(err, "GeneratePassword")
			nd.Assert(h.Compare(pw, sh) && !h.Compare(pw+"x", sh), "a password matches its own hash")
		}
	}
	op := nd.Choose("op", 5)
	nd.Par(run(op, "one"), run(op, "two"))
	nd.Reach("end")
}
