package h

import (
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/nd"
	"verif/vtime"
)

// guarded is a caller's byte slice inside a larger array.
type guarded struct{ b, all, was []byte }

func guard(b []byte, spare int) *guarded {
	all := make([]byte, len(b)+spare)
	copy(all, b)
	for i := len(b); i < len(all); i++ {
		all[i] = 0xEE
	}
	return &guarded{all[:len(b)], all, clone(all)}
}

func (g *guarded) intact() bool { return nd.Eq(g.all, g.was) }

func wipe(b []byte) {
	for i := range b {
		b[i] = 0
	}
}

//prop: C22 share=2
// Requests leave the caller's objects, group lists and tokens as they were, including the memory behind them; what
// was stored or returned does not change when the caller reuses that memory.
func H22Requests() {
	vtime.Set(epoch, 0)
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	spare := pick("spare", 0, 1, 64)
	pt, aad := guard(nd.Bytes("pt", pick("ptlen", 0, 3)), spare), guard(nd.Bytes("aad", pick("aadlen", 0, 2)), spare)
	want := data.Object{Plaintext: clone(pt.b), AssociatedData: clone(aad.b)}
	obj := &data.Object{Plaintext: pt.b, AssociatedData: aad.b}
	list := make([]string, 4)
	copy(list, []string{"h", "g", "spare", "a"})
	groups := list[:nd.Choose("groups", 3)]
	oid, err := w.d.Encrypt(bg, "t", obj, groups...)
	must(err, "Encrypt")
	same := func() {
		nd.Assert(nd.And(pt.intact(), aad.intact()), "the caller's object is left alone")
		nd.Assert(len(obj.Plaintext) == len(want.Plaintext) && len(obj.AssociatedData) == len(want.AssociatedData), "the caller's object is left alone")
		nd.Assert(list[0] == "h" && list[1] == "g" && list[2] == "spare" && list[3] == "a", "the caller's group list is left alone")
	}
	same()
	switch nd.Choose("then", 3) {
	case 1:
		must(w.d.Update(bg, "t", oid, obj), "Update")
		same()
	case 2:
		must(w.d.AddGroupsToAccess(bg, "t", oid, groups...), "AddGroupsToAccess")
		must(w.d.RemoveGroupsFromAccess(bg, "t", oid, groups...), "RemoveGroupsFromAccess")
		same()
	}
	wipe(pt.all)
	wipe(aad.all)
	list[0], list[1] = "x", "y"
	o, err := w.d.Decrypt(bg, "t", oid)
	nd.Assert(err == nil && sameObject(o, want), "what was stored does not depend on the caller's memory")
	// neither does it depend on what is done with a result
	wipe(o.Plaintext)
	wipe(o.AssociatedData)
	g, err := w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	g["mallory"] = struct{}{}
	o, err = w.d.Decrypt(bg, "t", oid)
	nd.Assert(err == nil && sameObject(o, want), "what was stored does not depend on results")
	g, err = w.d.GetAccessGroups(bg, "t", oid)
	_, ok := g["mallory"]
	nd.Assert(err == nil && !ok, "what was stored does not depend on results")
}

//prop: C22
// Tokens: creating and opening leave the caller's memory alone, opening can be repeated, and the token does not
// depend on the caller's buffer.
func H22Tokens() {
	vtime.Set(epoch, 0)
	w := newWorld()
	c := guard(nd.Bytes("contents", pick("len", 0, 3)), pick("spare", 0, 64))
	was := clone(c.b)
	t, err := w.d.CreateToken(bg, c.b)
	must(err, "CreateToken")
	nd.Assert(c.intact(), "the caller's buffer is left alone")
	wipe(c.all)
	ct, wk, exp := clone(t.Ciphertext), clone(t.WrappedKey), t.ExpiryTime
	for i := 0; i < 2; i++ {
		got, err := w.d.GetTokenContents(bg, &t)
		nd.Assert(err == nil && len(got) == len(was) && nd.Eq(got, was), "a token can be opened any number of times")
		nd.Assert(len(t.Ciphertext) == len(ct) && len(t.WrappedKey) == len(wk) && nd.And(nd.Eq(t.Ciphertext, ct), nd.Eq(t.WrappedKey, wk)) && t.ExpiryTime.Equal(exp), "opening leaves the token alone")
		wipe(got)
	}
}

//prop: C22
// Sealed objects, access records and nodes can be opened any number of times; opening leaves them alone.
func H22Sealed() {
	c := cryptor(keyOf(9))
	raw := nd.Bytes("pt", 3)
	wk, ct, err := c.Encrypt(clone(raw), "aad")
	must(err, "Encrypt")
	spare := pick("spare", 0, 4, 32)
	gct, gwk := guard(ct, spare), guard(wk, spare)
	for i := 0; i < 3; i++ {
		var got []byte
		err := c.Decrypt(&got, "aad", gwk.b, gct.b)
		nd.Assert(err == nil && nd.Eq(got, raw), "a ciphertext can be opened any number of times")
		nd.Assert(nd.And(gct.intact(), gwk.intact()), "opening leaves ciphertext and wrapped key alone")
		wipe(got)
		if i == 1 {
			err = c.Decrypt(&got, "other", gwk.b, gct.b)
			nd.Assert(err != nil && nd.And(gct.intact(), gwk.intact()), "a failed opening leaves ciphertext and wrapped key alone")
		}
	}
}

//prop: C22
// Components keep their own copy of their keys: clearing or reusing the caller's key memory after construction
// changes nothing.
func H22Keys() {
	vtime.Set(epoch, 0)
	spare := pick("spare", 0, 16)
	g := map[string]*guarded{}
	mk := func(n string) []byte {
		g[n] = guard(nd.Bytes(n, 32), spare)
		return g[n].b
	}
	ip := &idp{}
	ip.add("t", ident("u", scopeAll))
	st := newStore()
	var before, after func() []byte
	what := nd.Choose("what", 7)
	switch what {
	case 0:
		p := key.NewStatic(key.Keys{KEK: mk("kek"), AEK: mk("aek"), TEK: mk("tek")})
		d, err := d1.New(bg, &p, st, ip)
		must(err, "creating an instance")
		oid, err := d.Encrypt(bg, "t", object("text", "aad"))
		must(err, "Encrypt")
		before = func() []byte { return []byte("text") }
		after = func() []byte {
			o, err := d.Decrypt(bg, "t", oid)
			nd.Assert(err == nil, "an instance keeps its own copy of its keys")
			return o.Plaintext
		}
	case 1:
		p := key.NewStatic(key.Keys{IEK: mk("iek")})
		x, err := index.NewSecureIndex(bg, &p, st, ip)
		must(err, "creating the index")
		must(x.Add(bg, "t", "w", "i"), "Add")
		before = func() []byte { return []byte("i") }
		after = func() []byte {
			r, err := x.Search(bg, "t", "w")
			nd.Assert(err == nil && len(r) == 1, "an index keeps its own copy of its key")
			if len(r) != 1 {
				return nil
			}
			return []byte(r[0])
		}
	case 2:
		s, err := id.NewStandalone(id.StandaloneConfig{UEK: mk("uek"), GEK: mk("gek"), TEK: mk("tek")}, st)
		must(err, "creating the identity provider")
		uid, pw, err := s.NewUser(bg, id.ScopeAll)
		must(err, "NewUser")
		t, _, err := s.LoginUser(bg, uid, pw)
		must(err, "LoginUser")
		before = func() []byte { return []byte(uid) }
		after = func() []byte {
			i, err := s.GetIdentity(bg, t)
			nd.Assert(err == nil, "an identity provider keeps its own copy of its keys")
			return []byte(i.ID)
		}
	case 3:
		t, err := crypto.NewKMAC256Tagger(mk("key"))
		must(err, "NewKMAC256Tagger")
		tag := func() []byte {
			b, err := t.Tag("x")
			must(err, "Tag")
			return b
		}
		before, after = tag, tag
	case 4:
		k := mk("key")
		m := crypto.NewKMAC256(k, 32, []byte("c"))
		sum := func() []byte { m.Reset(); m.Write([]byte("x")); return m.Sum(nil) }
		before, after = sum, sum
	case 5:
		w, err := crypto.NewKWP(mk("key"))
		must(err, "NewKWP")
		wk, err := w.Wrap(keyOf(3))
		must(err, "Wrap")
		before = func() []byte { return keyOf(3) }
		after = func() []byte {
			b, err := w.Unwrap(wk)
			nd.Assert(err == nil, "a key wrapper keeps its own copy of its key")
			return b
		}
	case 6:
		c := cryptor(mk("key"))
		wk, ct, err := c.Encrypt([]byte("text"), "aad")
		must(err, "Encrypt")
		before = func() []byte { return []byte("text") }
		after = func() []byte {
			var b []byte
			err := c.Decrypt(&b, "aad", wk, ct)
			nd.Assert(err == nil, "a cryptor keeps its own copy of its key")
			return b
		}
	}
	x := clone(before())
	for _, k := range g {
		nd.Assert(k.intact(), "keys are left alone")
		wipe(k.all)
	}
	y := after()
	nd.Assert(len(x) == len(y) && nd.Eq(x, y), "components keep their own copy of their keys")
}

//prop: C22
// Hashing, tagging, wrapping and storing leave their arguments alone, including the memory behind them.
func H22Primitives() {
	a := guard(nd.Bytes("a", pick("alen", 1, 32)), pick("spare", 0, 8, 64))
	b := guard(nd.Bytes("b", 3), 16)
	switch nd.Choose("what", 7) {
	case 0:
		if len(a.b) < 32 {
			nd.Stop()
		}
		k := crypto.NewKMAC256(a.b, 32, b.b)
		k.Write(b.b)
		dst := guard([]byte("dst"), 0)
		out := k.Sum(dst.b)
		nd.Assert(dst.intact() && len(out) == 35 && string(out[:3]) == "dst", "Sum appends")
	case 1:
		if len(a.b) < 32 {
			nd.Stop()
		}
		crypto.KMACKDF(32, a.b, b.b, b.b, a.b)
	case 2:
		w, err := crypto.NewKWP(keyOf(1))
		must(err, "NewKWP")
		if len(a.b) < 16 {
			nd.Stop()
		}
		x, err := w.Wrap(a.b)
		must(err, "Wrap")
		nd.Assert(a.intact(), "arguments are left alone")
		g := guard(x, 16)
		_, err = w.Unwrap(g.b)
		nd.Assert(err == nil && g.intact(), "arguments are left alone")
	case 3:
		t, err := crypto.NewKMAC256Tagger(keyOf(1))
		must(err, "NewKMAC256Tagger")
		_, err = t.Tag(a.b)
		must(err, "Tag")
	case 4, 5:
		var p io.Provider = newBolt()
		if nd.Choose("mem", 2) == 1 {
			m := io.NewMem()
			p = &m
		}
		must(p.Put(bg, a.b, 7, b.b), "Put")
		must(p.Update(bg, a.b, 7, b.b), "Update")
		_, err := p.Get(bg, a.b, 7)
		must(err, "Get")
		must(p.Delete(bg, a.b, 7), "Delete")
	case 6:
		h := crypto.NewPasswordHasher()
		h.Compare("password", a.b)
	}
	nd.Assert(nd.And(a.intact(), b.intact()), "arguments are left alone")
}

//prop: C22
// The identity provider leaves the lists of groups and scopes passed to it alone, including the memory behind them, and
// neither depends on them nor on the results it gave.
func H22Identity() {
	vtime.Set(epoch, 0)
	st := newStore()
	s, err := id.NewStandalone(saConfig(), st)
	must(err, "creating the identity provider")
	scopes := []id.Scope{id.ScopeUpdate, id.ScopeDecrypt, 7}
	uid, pw, err := s.NewUser(bg, scopes[:2]...)
	must(err, "NewUser")
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(err, "LoginUser")
	var gs []string
	for i := 0; i < 2; i++ {
		g, err := s.NewGroup(bg, tok, scopes[:2]...)
		must(err, "NewGroup")
		gs = append(gs, g)
	}
	nd.Assert(scopes[0] == id.ScopeUpdate && scopes[1] == id.ScopeDecrypt && scopes[2] == 7, "the caller's scopes are left alone")
	scopes[0], scopes[1] = 0, 0
	other, _, err := s.NewUser(bg)
	must(err, "NewUser")
	list := []string{gs[1], gs[0], "spare", gs[0]}
	what := nd.Choose("what", 3)
	n := pick("n", 1, 2)
	switch what {
	case 0:
		err = s.AddUserToGroups(bg, tok, other, list[:n]...)
	case 1:
		err = s.AddUserToGroups(bg, tok, uid, list[:n]...)
	case 2:
		err = s.RemoveUserFromGroups(bg, tok, uid, list[:n]...)
	}
	must(err, "changing groups")
	nd.Assert(list[0] == gs[1] && list[1] == gs[0] && list[2] == "spare" && list[3] == gs[0], "the caller's list is left alone")
	list[0], list[1] = "x", "y"
	want := 2
	if what == 2 {
		want -= n
	}
	for k := 0; k < 2; k++ {
		i, err := s.GetIdentity(bg, tok)
		nd.Assert(err == nil && i.ID == uid && i.Scopes == id.ScopeUpdate|id.ScopeDecrypt && len(i.Groups) == want, "identities do not depend on the caller's memory")
		for _, g := range i.Groups {
			nd.Assert(g.Scopes == id.ScopeUpdate|id.ScopeDecrypt, "identities do not depend on the caller's memory")
		}
		i.Groups["mallory"] = id.AccessGroup{ID: "mallory", Scopes: id.ScopeAll}
	}
}
