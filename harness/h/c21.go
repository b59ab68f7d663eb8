package h

import (
	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/nd"
	"verif/vtime"
)

// wrongLen is a key length other than 32.
func wrongLen(name string) int {
	n := nd.Choose(name, 66)
	if n == 32 {
		nd.Stop()
	}
	return n
}

//prop: C21
// Every constructor refuses keys that do not have 32 bytes, for each of its keys, and accepts keys of 32 bytes.
func H21Sizes() {
	what := nd.Choose("what", 10)
	n := wrongLen("len")
	bad := nd.Bytes("bad", n)
	st := newStore()
	k := keys()
	c := saConfig()
	var err error
	sp := func() key.Provider { p := key.NewStatic(k); return &p }
	switch what {
	case 0, 1, 2:
		*[]*[]byte{&k.KEK, &k.AEK, &k.TEK}[what] = bad
		_, err = d1.New(bg, sp(), st, &idp{})
	case 3:
		k.IEK = bad
		_, err = index.NewSecureIndex(bg, sp(), st, &idp{})
	case 4, 5, 6:
		*[]*[]byte{&c.UEK, &c.GEK, &c.TEK}[what-4] = bad
		_, err = id.NewStandalone(c, st)
	case 7:
		_, err = crypto.NewAESCryptor(bad)
	case 8:
		_, err = crypto.NewKMAC256Tagger(bad)
	case 9:
		_, err = crypto.NewKWP(bad)
		if n == 16 {
			err = nil
			nd.Stop()
		}
	}
	nd.Assert(err != nil, "keys of other lengths are refused")
	nd.Assert(len(st.ops) == 0, "nothing is stored before the keys are checked")
}

//prop: C21
// Any four keys of 32 bytes work; keys a component does not use need not be there.
func H21Accepted() {
	k := key.Keys{KEK: nd.Bytes("kek", 32), AEK: nd.Bytes("aek", 32), TEK: nd.Bytes("tek", 32)}
	p := key.NewStatic(k)
	ip := &idp{}
	ip.add("t", ident("u", scopeAll))
	st := newStore()
	d, err := d1.New(bg, &p, st, ip)
	must(err, "creating an instance without an index key")
	oid, err := d.Encrypt(bg, "t", object("text", "aad"))
	must(err, "Encrypt")
	o, err := d.Decrypt(bg, "t", oid)
	nd.Assert(err == nil && sameObject(o, *object("text", "aad")), "any keys of 32 bytes work")
	p2 := key.NewStatic(key.Keys{IEK: nd.Bytes("iek", 32)})
	x, err := index.NewSecureIndex(bg, &p2, st, ip)
	must(err, "creating an index with nothing but the index key")
	must(x.Add(bg, "t", "w", "i"), "Add")
	r, err := x.Search(bg, "t", "w")
	nd.Assert(err == nil && bagEq(r, []string{"i"}), "any key of 32 bytes works")
	g, err := p.GetKeys(bg)
	nd.Assert(err == nil && nd.And(nd.Eq(g.KEK, k.KEK), nd.Eq(g.AEK, k.AEK), nd.Eq(g.TEK, k.TEK)) && g.IEK == nil, "a static provider returns its keys")
}

//prop: C21 share=2
// The keys of the identity provider have separate roles: with another user key no user is found, with another group
// key no group, with another token key no token is accepted; the rest goes on.
func H21Identity() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(id.ScopeEncrypt)
	tok := s.login(uid, pw)
	grouped := nd.Choose("grouped", 2) == 1
	if grouped {
		_, err := s.p.NewGroup(bg, tok, id.ScopeDecrypt)
		must(err, "NewGroup")
	}
	c := saConfig()
	role := nd.Choose("role", 3)
	switch role {
	case 0:
		c.UEK = otherKey("uek", c.UEK)
	case 1:
		c.GEK = otherKey("gek", c.GEK)
	case 2:
		c.TEK = otherKey("tek", c.TEK)
	}
	p, err := id.NewStandalone(c, s.st)
	must(err, "creating an identity provider")
	_, _, err = p.LoginUser(bg, uid, pw)
	nd.Assert((err == nil) == (role != 0), "a login needs the user key")
	_, err = p.ChangeUserPassword(bg, uid, "wrong")
	nd.Assert(err != nil, "a wrong password changes nothing")
	i, err := p.GetIdentity(bg, tok)
	nd.Assert((err == nil) == (role == 1 && !grouped), "a look-up needs the token key, the user key and, for members, the group key")
	nd.Assert(err == nil || i.ID == "" && i.Scopes == 0 && len(i.Groups) == 0, "a failed look-up returns no identity")
	nd.Reach("role")
}

//prop: C21
// With another index key an index is empty: nothing that was added is found, and adding does not disturb what is
// there.
func H21Index() {
	i := newIx()
	i.add("w", "one")
	k := keys()
	k.IEK = otherKey("iek", k.IEK)
	p := key.NewStatic(k)
	x, err := index.NewSecureIndex(bg, &p, i.st, i.ip)
	must(err, "creating the index")
	r, err := x.Search(bg, "t", "w")
	nd.Assert(err == nil && len(r) == 0, "entries are found with the index key only")
	must(x.Delete(bg, "t", "w", "one"), "Delete")
	must(x.Add(bg, "t", "w", "two"), "Add")
	nd.Assert(bagEq(i.search("w"), []string{"one"}), "indexes with different keys do not disturb each other")
	r, err = x.Search(bg, "t", "w")
	nd.Assert(err == nil && bagEq(r, []string{"two"}), "indexes with different keys do not disturb each other")
	// the other keys play no role
	k2 := key.Keys{IEK: keys().IEK}
	p2 := key.NewStatic(k2)
	x2, err := index.NewSecureIndex(bg, &p2, i.st, i.ip)
	must(err, "creating the index")
	r, err = x2.Search(bg, "t", "w")
	nd.Assert(err == nil && bagEq(r, []string{"one"}), "the index depends on the index key only")
}
