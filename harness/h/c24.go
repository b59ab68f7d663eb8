package h

import (
	"strconv"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	"verif/nd"
	"verif/vtime"
)

var named = []id.Scope{id.ScopeEncrypt, id.ScopeDecrypt, id.ScopeUpdate, id.ScopeDelete, id.ScopeCreateToken,
	id.ScopeGetTokenContents, id.ScopeGetAccessGroups, id.ScopeModifyAccessGroups, id.ScopeIndex}

//prop: C24
// Scopes are sets of permissions: a union holds exactly what one of its parts holds, containing means holding every
// part, the named scopes are different single permissions which together are all, and names tell them apart.
func H24Scopes() {
	a, b, c := id.Scope(nd.Uint64("a")), id.Scope(nd.Uint64("b")), id.Scope(nd.Uint64("c"))
	u := id.ScopeUnion(a, b, c)
	nd.Assert(id.ScopeUnion() == id.ScopeNone && id.ScopeUnion(a) == a, "a union holds exactly what its parts hold")
	nd.Assert(id.ScopeUnion(a, b) == a|b && u == a|b|c, "a union holds exactly what its parts hold")
	nd.Assert(a.Contains(b) == (a&b == b), "containing means holding every permission")
	nd.Assert(u.Contains(a) && u.Contains(b) && u.Contains(c) && a.Contains(id.ScopeNone), "a union contains its parts")
	nd.Assert(id.ScopeNone.Contains(a) == (a == 0), "no scope holds nothing")
	all := id.ScopeNone
	for i, s := range named {
		nd.Assert(s != 0 && s&(s-1) == 0, "a named scope is a single permission")
		nd.Assert(all&s == 0, "named scopes are different")
		all |= s
		for _, t := range named[:i] {
			nd.Assert(s.String() != t.String(), "named scopes have different names")
		}
		nd.Assert(s.String() != "unknown" && s.String() != "", "named scopes have names")
		nd.Assert(id.ScopeUnion(a, s).Contains(s), "a union contains its parts")
		nd.Assert(a.Contains(s) == (a&s != 0), "containing means holding every permission")
		nd.Assert((a.String() == s.String()) == (a == s), "only a named scope has its name")
	}
	nd.Assert(all == id.ScopeAll, "all scopes are exactly the named ones")
	nd.Reach("end")
}

//prop: C24
// An identity's identifiers are its own and its groups', and the scopes of an identifier are the identity's or the
// group's; an identifier that is neither has none. Own scopes are not those of a group of the same name.
func H24Identity() {
	n := nd.Choose("groups", 3)
	own := plain("id", pick("idlen", 0, 2))
	i := id.Identity{ID: own, Scopes: id.Scope(nd.Uint64("scopes"))}
	var gs []string
	var sc []id.Scope
	if n > 0 || nd.Choose("nil", 2) == 1 {
		i.Groups = map[string]id.AccessGroup{}
	}
	for k := 0; k < n; k++ {
		g := plain("g", 2)
		if member(gs, g) {
			nd.Stop()
		}
		s := id.Scope(nd.Uint64("gscopes"))
		i.Groups[g] = id.AccessGroup{ID: g, Scopes: s}
		gs, sc = append(gs, g), append(sc, s)
	}
	nd.Assert(setEq(i.GetIDs(), insert(gs, own)), "an identity's identifiers are its own and its groups'")
	q := plain("q", pick("qlen", 0, 2))
	want := id.ScopeNone
	for k, g := range gs {
		if g == q {
			want = sc[k]
			nd.Reach("group")
		}
	}
	if q == own {
		want = i.Scopes
		nd.Reach("own")
	}
	nd.Assert(i.GetIDScope(q) == want, "an identifier has the scopes of the identity or group it belongs to")
	ids := i.GetIDs()
	ids["other"] = struct{}{}
	nd.Assert(len(i.Groups) == n && setEq(i.GetIDs(), insert(gs, own)), "the set that is returned is the caller's")
}

//prop: C24 share=2
// An access record's groups are the set built by the calls, also through sealing and opening; the wrapped key in it
// stays what it was.
func H24Access() {
	names := []string{plain("a", 1), plain("b", 1), "c"}
	wk := nd.Bytes("wk", pick("wklen", 0, 1, 40))
	a := data.NewAccess(clone(wk))
	nd.Assert(len(a.GetGroups()) == 0, "a new access record has no groups")
	var want []string
	var oid uuid.UUID
	copy(oid[:], nd.Bytes("oid", 16))
	n := tiered(3, 4)
	for k := 0; k < n; k++ {
		list := [][]string{names[:1], names[1:2], names[:2], names[1:], {}}[nd.Choose("list", 5)]
		switch nd.Choose("op", 3) {
		case 0:
			a.AddGroups(list...)
			for _, g := range list {
				want = insert(want, g)
			}
		case 1:
			a.RemoveGroups(list...)
			for _, g := range list {
				want = remove(want, g)
			}
		case 2:
			if len(list) > 0 {
				nd.Stop()
			}
			s, err := a.Seal(oid, cryptor(keyOf(2)))
			must(err, "sealing")
			nd.Assert(s.OID == oid, "a sealed access record names its object")
			a, err = s.Unseal(cryptor(keyOf(2)))
			must(err, "opening")
		}
	}
	nd.Assert(setEq(a.GetGroups(), want), "the groups are the set built by the calls")
	for _, g := range names {
		nd.Assert(a.ContainsGroups(g) == member(want, g), "the groups are the set built by the calls")
		nd.Assert(a.ContainsGroups(g, "c") == (member(want, g) && member(want, "c")), "containing groups means containing each of them")
	}
	nd.Assert(a.ContainsGroups(), "every record contains no groups")
	nd.Assert(len(a.WrappedDEK) == len(wk) && nd.Eq(a.WrappedDEK, wk), "the wrapped key stays what it was")
}

//prop: C24
// Types of stored data are different and have different encodings of one size, for every pair of the 65536 types; a
// static key provider returns the keys it was given; users and groups have the union of the scopes they were made with.
func H24Types() {
	vtime.Set(epoch, 0)
	raw := nd.Bytes("types", 4)
	a := io.DataType(uint16(raw[0]) | uint16(raw[1])<<8)
	b := io.DataType(uint16(raw[2]) | uint16(raw[3])<<8)
	x, y := a.Bytes(), b.Bytes()
	nd.Assert(len(x) == len(y) && nd.Eq(x, y) == (a == b), "types have different encodings of one size")
	types := []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess, io.DataTypeSealedNode, id.DataTypeSealedUser, id.DataTypeSealedGroup}
	for i, t := range types {
		nd.Assert(t.String() == strconv.Itoa(int(t)), "a type's name is its number")
		for _, u := range types[:i] {
			nd.Assert(t != u, "types of stored data are different")
		}
	}
	k := symKeys()
	p := key.NewStatic(k)
	g, err := p.GetKeys(bg)
	nd.Assert(err == nil && len(g.KEK) == 32 && len(g.AEK) == 32 && len(g.TEK) == 32 && len(g.IEK) == 32, "a static provider returns its keys")
	nd.Assert(nd.And(nd.Eq(g.KEK, k.KEK), nd.Eq(g.AEK, k.AEK), nd.Eq(g.TEK, k.TEK), nd.Eq(g.IEK, k.IEK)), "a static provider returns its keys")
	s, err := id.NewStandalone(saConfig(), newStore())
	must(err, "creating the identity provider")
	sc := []id.Scope{id.Scope(nd.Uint64("s1")), id.Scope(nd.Uint64("s2")), id.Scope(nd.Uint64("g1")), id.Scope(nd.Uint64("g2"))}
	n := nd.Choose("scopes", 3)
	uid, pw, err := s.NewUser(bg, sc[:n]...)
	must(err, "NewUser")
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(err, "LoginUser")
	gid, err := s.NewGroup(bg, tok, sc[2:2+n]...)
	must(err, "NewGroup")
	i, err := s.GetIdentity(bg, tok)
	must(err, "GetIdentity")
	want, gwant := id.ScopeNone, id.ScopeNone
	for k := 0; k < n; k++ {
		want, gwant = want|sc[k], gwant|sc[2+k]
	}
	nd.Assert(i.Scopes == want && i.Groups[gid].Scopes == gwant && i.Groups[gid].ID == gid, "users and groups have the scopes they were made with")
}
