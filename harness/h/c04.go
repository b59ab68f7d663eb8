package h

import (
	"github.com/gofrs/uuid"

	"verif/nd"
)

// validUTF8 is the oracle for the finding on group names and identifiers that are not UTF-8 (strings of length 1:
// ASCII).
func ascii(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = nd.And(ok, s[i] < 0x80)
	}
	return ok
}

//prop: C04 share=3
// The access list equals the set built by the calls, for arbitrary ASCII group names (coinciding or not, empty
// included) and any sequence of additions, removals, updates and reopenings.
func H04Algebra() {
	w := newWorld()
	w.ip.add("t", ident("a", scopeAll))
	w.ip.add("root", ident("root", scopeAll))
	names := func(tag string) []string {
		var out []string
		n := nd.Choose(tag+".n", 3)
		for i := 0; i < n; i++ {
			out = append(out, plain(tag, nd.Choose(tag+".len", 2)))
		}
		return out
	}
	first := names("g0")
	oid, err := w.d.Encrypt(bg, "t", object("p", ""), append([]string{"root"}, first...)...)
	must(err, "Encrypt")
	want := []string{"a", "root"}
	for _, g := range first {
		want = insert(want, g)
	}
	n := tiered(1, 2)
	for i := 0; i < n; i++ {
		switch nd.Choose("op", 4) {
		case 0:
			gs := names("add")
			must(w.d.AddGroupsToAccess(bg, "root", oid, gs...), "AddGroupsToAccess")
			for _, g := range gs {
				want = insert(want, g)
			}
		case 1:
			gs := names("del")
			must(w.d.RemoveGroupsFromAccess(bg, "root", oid, gs...), "RemoveGroupsFromAccess")
			for _, g := range gs {
				want = remove(want, g)
			}
		case 2:
			must(w.d.Update(bg, "root", oid, object("q", "r")), "Update")
		case 3:
			w.reopen()
		}
	}
	got, err := w.d.GetAccessGroups(bg, "root", oid)
	must(err, "GetAccessGroups")
	nd.Reach("list")
	nd.Assert(setEq(got, want), "the access list is the set built by the calls")
	o, err := w.d.Decrypt(bg, "root", oid)
	nd.Assert(err == nil && (sameObject(o, *object("p", "")) || sameObject(o, *object("q", "r"))), "changing the access list leaves the object alone")
}

//prop: C04
// One group name of arbitrary bytes (quotes, escapes, control characters, beyond ASCII): it is a member exactly as
// given, and removing it removes it.
func H04Names() {
	w := newWorld()
	w.ip.add("t", ident("owner", scopeAll))
	g := nd.String("g", tiered(1, 1))
	known := nd.Not(ascii(g))
	oid, err := w.d.Encrypt(bg, "t", object("p", ""), g)
	must(err, "Encrypt")
	w.ip.add("m", ident("m", scopeAll, groupAll(g)))
	nd.Reach("added")
	err = w.d.AuthorizeIdentity(bg, "m", oid)
	nd.Known("invalid-utf8-names", err == nil, known, "a member of a group on the list is authorized, whatever the bytes of its name")
	got, err := w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	nd.Known("invalid-utf8-names", setEq(got, []string{"owner", g}), known, "the list holds the name as given")
	must(w.d.RemoveGroupsFromAccess(bg, "t", oid, g), "RemoveGroupsFromAccess")
	got, err = w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	nd.Known("invalid-utf8-names", setEq(got, []string{"owner"}), known, "a removed group is gone, whatever the bytes of its name")
}

//prop: C04
// Names that differ only in case, prefix, separators or characters that need escaping stay different members.
func H04Similar() {
	pairs := [][2]string{{"a", "A"}, {"ab", "a"}, {"a,b", "a"}, {"a\"", "a\\\""}, {"a<b", "a\\u003cb"}, {"\u00e9", "e\u0301"}, {"a\n", "an"}, {"", " "},
		{"\u2028", "\\u2028"}, {"null", ""}, {"a\x00", "a"}, {"\U0001F600", "\ufffd"}}
	p := pairs[nd.Choose("pair", len(pairs))]
	w := newWorld()
	w.ip.add("t", ident("owner", scopeAll))
	oid, err := w.d.Encrypt(bg, "t", object("p", ""), p[0], p[1])
	must(err, "Encrypt")
	i := nd.Choose("which", 2)
	must(w.d.RemoveGroupsFromAccess(bg, "t", oid, p[i]), "RemoveGroupsFromAccess")
	got, err := w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	nd.Assert(setEq(got, []string{"owner", p[1-i]}), "similar names are different members")
	w.ip.add("in", ident("x", scopeAll, groupAll(p[1-i])))
	w.ip.add("out", ident("y", scopeAll, groupAll(p[i])))
	nd.Assert(w.d.AuthorizeIdentity(bg, "in", oid) == nil, "the remaining group keeps access")
	nd.Assert(w.d.AuthorizeIdentity(bg, "out", oid) != nil, "the removed group has no access")
}

//prop: C04
// Removing oneself, or everyone, takes effect at once and for everyone.
func H04Self() {
	w := newWorld()
	w.ip.add("a", ident("a", scopeAll))
	w.ip.add("b", ident("b", scopeAll))
	oid, err := w.d.Encrypt(bg, "a", object("p", ""), "b")
	must(err, "Encrypt")
	gone := []string{plain("r", 1), plain("r", 1)}
	must(w.d.RemoveGroupsFromAccess(bg, "a", oid, gone...), "RemoveGroupsFromAccess")
	for _, u := range []string{"a", "b"} {
		in := !member(gone, u)
		_, err := w.d.GetAccessGroups(bg, u, oid)
		nd.Assert((err == nil) == in, "access ends with membership")
		err = w.d.AddGroupsToAccess(bg, u, oid, u)
		nd.Assert((err == nil) == in, "a removed member cannot put itself back")
	}
}

//prop: C04
// Long names are compared by all of their bytes.
func H04Long() {
	w := newWorld()
	n := pick("len", 31, 32, 33, 36, 37, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300)
	a, b := long("a", n), long("b", n)
	if nd.Choose("shorter", 2) == 1 {
		b = a[:n-1]
	}
	same := len(a) == len(b) && nd.EqStr(a, b)
	w.ip.add("t", ident("owner", scopeAll))
	oid, err := w.d.Encrypt(bg, "t", object("p", ""), a)
	must(err, "Encrypt")
	switch nd.Choose("as", 2) {
	case 0:
		w.ip.add("m", ident("m", scopeAll, groupAll(b)))
	case 1:
		w.ip.add("m", ident(b, scopeAll))
	}
	nd.Assert((w.d.AuthorizeIdentity(bg, "m", oid) == nil) == same, "membership of one name does not extend to another")
	got, err := w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	nd.Assert(setEq(got, []string{"owner", a}), "the list holds the names as given")
	must(w.d.AddGroupsToAccess(bg, "t", oid, b), "AddGroupsToAccess")
	must(w.d.AuthorizeIdentity(bg, "m", oid), "AuthorizeIdentity")
	must(w.d.RemoveGroupsFromAccess(bg, "t", oid, a), "RemoveGroupsFromAccess")
	nd.Assert((w.d.AuthorizeIdentity(bg, "m", oid) == nil) == !same, "removing one name leaves another")
}

//prop: C04
// Many names: in one call or in several, all of them become members, and removing some of them removes exactly those.
func H04Many() {
	nd.Opt("long")
	w := newWorld()
	w.ip.add("t", ident("owner", scopeAll))
	n := many("names")
	all := names("g", n)
	want := append([]string{"owner"}, all...)
	var oid uuid.UUID
	var err error
	switch nd.Choose("given", 3) {
	case 0:
		oid, err = w.d.Encrypt(bg, "t", object("p", ""), all...)
		must(err, "Encrypt")
	case 1:
		oid, err = w.d.Encrypt(bg, "t", object("p", ""))
		must(err, "Encrypt")
		must(w.d.AddGroupsToAccess(bg, "t", oid, all...), "AddGroupsToAccess")
	case 2:
		oid, err = w.d.Encrypt(bg, "t", object("p", ""), all[:n/2]...)
		must(err, "Encrypt")
		for _, g := range all[n/2:] {
			must(w.d.AddGroupsToAccess(bg, "t", oid, g), "AddGroupsToAccess")
		}
	}
	got, err := w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	nd.Assert(setEq(got, want), "the list holds all of the names")
	k := somewhere("which", n)
	gone := []string{all[k]}
	if nd.Choose("remove", 2) == 1 {
		gone = append(append([]string{}, all[:k]...), all[k+1:]...)
	}
	must(w.d.RemoveGroupsFromAccess(bg, "t", oid, gone...), "RemoveGroupsFromAccess")
	for _, g := range gone {
		want = remove(want, g)
	}
	got, err = w.d.GetAccessGroups(bg, "t", oid)
	must(err, "GetAccessGroups")
	nd.Assert(setEq(got, want), "exactly the names given are removed")
	w.ip.add("m", ident("m", scopeAll, groupAll(all[k])))
	nd.Assert((w.d.AuthorizeIdentity(bg, "m", oid) == nil) == (len(gone) > 1), "members and no others have access")
}

//prop: C04
// Two instances over one storage, used in turns: an access list is the same seen through either.
func H04Instances() { twoInstances(tiered(2, 4)) }
