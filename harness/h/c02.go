package h

import (
	"errors"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/nd"
)

// objectOp runs one operation on an object; it reports the error and whether anything was returned besides.
type objectOp struct {
	name  string
	scope id.Scope
	run   func(w *world, token string, oid uuid.UUID) (err error, leaked bool)
}

var objectOps = []objectOp{
	{"Decrypt", id.ScopeDecrypt, func(w *world, t string, oid uuid.UUID) (error, bool) {
		o, err := w.d.Decrypt(bg, t, oid)
		return err, !emptyObject(o)
	}},
	{"Update", id.ScopeUpdate, func(w *world, t string, oid uuid.UUID) (error, bool) {
		return w.d.Update(bg, t, oid, object("new", "n")), false
	}},
	{"Delete", id.ScopeDelete, func(w *world, t string, oid uuid.UUID) (error, bool) {
		return w.d.Delete(bg, t, oid), false
	}},
	{"GetAccessGroups", id.ScopeGetAccessGroups, func(w *world, t string, oid uuid.UUID) (error, bool) {
		g, err := w.d.GetAccessGroups(bg, t, oid)
		return err, len(g) != 0
	}},
	{"AddGroupsToAccess", id.ScopeModifyAccessGroups, func(w *world, t string, oid uuid.UUID) (error, bool) {
		return w.d.AddGroupsToAccess(bg, t, oid, "extra"), false
	}},
	{"RemoveGroupsFromAccess", id.ScopeModifyAccessGroups, func(w *world, t string, oid uuid.UUID) (error, bool) {
		return w.d.RemoveGroupsFromAccess(bg, t, oid, "extra"), false
	}},
	{"AuthorizeIdentity", id.ScopeGetAccessGroups, func(w *world, t string, oid uuid.UUID) (error, bool) {
		return w.d.AuthorizeIdentity(bg, t, oid), false
	}},
}

// caller is an identity with arbitrary ID, scopes and groups.
type caller struct {
	uid    string
	scope  id.Scope
	groups []id.AccessGroup
}

// idLen is the length of the i-th identifier of a list: the first ones vary.
func idLen(name string, i int) int {
	if i > 0 && nd.Tier() == 0 {
		return 1
	}
	return pick(name, 1, 2)
}

func symCaller(maxGroups int) *caller {
	c := &caller{uid: plain("uid", pick("uid.len", 1, 2)), scope: id.Scope(nd.Uint64("scope"))}
	n := nd.Choose("ngroups", maxGroups+1)
	for i := 0; i < n; i++ {
		g := id.AccessGroup{ID: plain("gid", idLen("gid.len", i)), Scopes: id.Scope(nd.Uint64("gscope"))}
		for _, x := range c.groups {
			nd.Assume(x.ID != g.ID)
		}
		c.groups = append(c.groups, g)
	}
	return c
}

// callerToken is a token of the caller: one that the identity provider knows, one that it refuses (though it returns an
// identity besides), or any other.
func callerToken(p *idp, c *caller, ts ...string) (token string, known bool) {
	switch nd.Choose("token", 3) {
	case 0:
		if token = "caller"; len(ts) > 0 {
			token = pick1("known token", ts...)
		}
		p.add(token, c.identity())
		return token, true
	case 1:
		p.add("caller", c.identity())
		p.refuse("caller")
		return "caller", false
	}
	p.add("caller", c.identity())
	return plain("token", 2), false
}

func (c *caller) identity() id.Identity { return ident(c.uid, c.scope, c.groups...) }

func has(s, want id.Scope) bool { return s&want == want }

// granted is the oracle: the caller's own scopes allow the operation, and an ID of the caller on the list does too.
func (c *caller) granted(list []string, scope id.Scope) bool {
	if !has(c.scope, scope) {
		return false
	}
	if member(list, c.uid) {
		return true
	}
	for _, g := range c.groups {
		// an ID that is the user's own carries the user's scopes
		if g.ID != c.uid && member(list, g.ID) && has(g.Scopes, scope) {
			return true
		}
	}
	return false
}

// accessCase sets up an object with an arbitrary access list and an arbitrary caller and runs an operation.
func accessCase(decide bool) {
	w := newWorld()
	w.ip.add("owner", ident("owner", scopeAll))
	var list []string
	n := nd.Choose("nlist", 3)
	for i := 0; i < n; i++ {
		list = append(list, plain("list", idLen("list.len", i)))
	}
	oid, err := w.d.Encrypt(bg, "owner", object("secret", "public"), list...)
	must(err, "Encrypt")
	c := symCaller(2)
	op := objectOps[nd.Choose("op", len(objectOps))]
	token, known := callerToken(w.ip, c)
	exists := nd.Choose("exists", 2) == 0
	if !exists {
		oid = uuid.UUID{1, 2, 3}
	}
	nd.MapOrder(true)
	before := w.st.snapshot()
	from := len(w.st.ops)
	err, leaked := op.run(w, token, oid)
	if !decide {
		if err != nil {
			nd.Reach("refused")
			nd.Assert(!leaked, op.name+": a refused operation returns nothing")
			nd.Assert(w.st.mutations(from) == 0 && sameRecs(before, w.st.snapshot()), op.name+": a refused operation changes nothing in storage")
			if !known || !has(c.scope, op.scope) {
				nd.Assert(len(w.st.ops) == from, op.name+": a caller without identity or scope causes no storage access")
			}
			o, err := w.d.Decrypt(bg, "owner", func() uuid.UUID {
				if exists {
					return oid
				}
				return uuid.UUID(clone16(before[0].id))
			}())
			nd.Assert(err == nil && sameObject(o, *object("secret", "public")), op.name+": the object is unaffected by a refused operation")
		}
		return
	}
	switch {
	case !known:
		nd.Reach("unauthenticated")
		nd.Assert(errors.Is(err, d1.ErrNotAuthenticated), op.name+": an unknown caller is not authenticated")
	case !has(c.scope, op.scope):
		nd.Reach("no scope")
		nd.Assert(errors.Is(err, d1.ErrNotAuthorized), op.name+": a caller without the scope is not authorized")
	case !exists && op.name == "Delete":
		nd.Assert(err == nil, "deleting what does not exist succeeds")
	case !exists:
		nd.Reach("absent")
		nd.Assert(errors.Is(err, d1.ErrAccessNotFound), op.name+": an object that does not exist is reported")
	case c.granted(list, op.scope):
		nd.Reach("granted")
		nd.Assert(err == nil, op.name+": a caller on the access list with the scope is authorized")
	default:
		nd.Reach("refused")
		nd.Assert(errors.Is(err, d1.ErrNotAuthorized), op.name+": a caller without an ID on the access list that carries the scope is refused")
	}
}

func clone16(b []byte) (out [16]byte) {
	copy(out[:], b)
	return
}

//prop: C02 share=3
// For an arbitrary access list, caller ID, caller scopes, groups and group scopes, every operation on an object
// succeeds exactly when the rule says so, and refuses with the matching error.
func H02Decision() { accessCase(true) }

//prop: C02
// Encrypt needs authentication and the encrypt scope, nothing else; the caller ends up on the access list.
func H02Encrypt() {
	w := newWorld()
	c := symCaller(1)
	token, known := callerToken(w.ip, c, "caller", "", " ", "Bearer x")
	oid, err := w.d.Encrypt(bg, token, object("p", ""), "g")
	switch {
	case !known:
		nd.Assert(errors.Is(err, d1.ErrNotAuthenticated), "Encrypt: an unknown caller is not authenticated")
	case !has(c.scope, id.ScopeEncrypt):
		nd.Assert(errors.Is(err, d1.ErrNotAuthorized), "Encrypt: a caller without the scope is not authorized")
	default:
		nd.Reach("granted")
		nd.Assert(err == nil, "Encrypt: a caller with the scope is authorized")
	}
	if err != nil {
		nd.Reach("refused")
		nd.Assert(oid == uuid.Nil && len(w.st.ops) == 0, "Encrypt: a refused call stores and returns nothing")
		return
	}
	w.ip.add("self", ident(c.uid, scopeAll))
	w.ip.add("member", ident("someone", scopeAll, id.AccessGroup{ID: "g", Scopes: scopeAll}))
	for _, t := range []string{"self", "member"} {
		_, err = w.d.Decrypt(bg, t, oid)
		nd.Assert(err == nil, "the caller and the given groups get access")
	}
}

//prop: C02
// The rule applies afresh on every call: an identity that loses a scope or group between two calls loses access.
func H02Fresh() {
	w := newWorld()
	w.ip.add("owner", ident("owner", scopeAll))
	oid, err := w.d.Encrypt(bg, "owner", object("secret", "public"), "g")
	must(err, "Encrypt")
	g := id.AccessGroup{ID: "g", Scopes: scopeAll}
	w.ip.add("t", ident("bob", scopeAll, g))
	must(w.d.AuthorizeIdentity(bg, "t", oid), "AuthorizeIdentity")
	_, err = w.d.Decrypt(bg, "t", oid)
	must(err, "Decrypt")
	c := symCaller(0)
	c.groups = nil
	if nd.Choose("keep", 2) == 1 {
		c.groups = []id.AccessGroup{{ID: "g", Scopes: id.Scope(nd.Uint64("gscope2"))}}
	}
	w.ip.ids[1] = c.identity()
	op := objectOps[nd.Choose("op", len(objectOps))]
	err, leaked := op.run(w, "t", oid)
	ok := c.granted([]string{"owner", "g"}, op.scope)
	if ok {
		nd.Reach("granted")
	} else {
		nd.Reach("refused")
	}
	nd.Assert((err == nil) == ok, op.name+": the decision uses the identity's current scopes and groups")
	nd.Assert(ok || !leaked, op.name+": nothing is returned on refusal")
}

//prop: C03 share=3
// A refused operation returns nothing, changes nothing, and reads nothing when the caller has no identity or scope.
func H03Refused() { accessCase(false) }

var _ data.Object

//prop: C02
// Long access lists and callers in many groups: the rule holds wherever in them the matching name is.
func H02Many() {
	nd.Opt("long")
	w := newWorld()
	w.ip.add("owner", ident("owner", scopeAll))
	n := pick("listed", 1, 17, 260)
	oid, err := w.d.Encrypt(bg, "owner", object("secret", "public"), names("g", n)...)
	must(err, "Encrypt")
	m := pick("groups", 1, 9, 130)
	scope, other := id.Scope(nd.Uint64("scope")), id.Scope(nd.Uint64("other"))
	own := id.Scope(nd.Uint64("own"))
	k := somewhere("position", m)
	in := somewhere("member of", n)
	listed := nd.Choose("listed", 2) == 1
	var gs []id.AccessGroup
	for i := 0; i < m; i++ {
		g := id.AccessGroup{ID: nth("x", i), Scopes: other}
		if i == k && listed {
			g = id.AccessGroup{ID: nth("g", in), Scopes: scope}
		}
		gs = append(gs, g)
	}
	w.ip.add("t", ident("bob", own, gs...))
	op := objectOps[nd.Choose("op", len(objectOps))]
	ok := listed && has(own, op.scope) && has(scope, op.scope)
	err, leaked := op.run(w, "t", oid)
	if ok {
		nd.Reach("granted")
	} else {
		nd.Reach("refused")
	}
	nd.Assert((err == nil) == ok, op.name+": access is granted exactly by a scoped membership, however many there are")
	nd.Assert(ok || !leaked, op.name+": nothing is returned on refusal")
}

//prop: C03
// A refusal says the same about any two objects: whatever their lists, contents and records, and, for callers
// without the scope or without an identity, also about objects that do not exist.
func H03Same() {
	w := newWorld()
	w.ip.add("owner", ident("owner", scopeAll))
	o1, err := w.d.Encrypt(bg, "owner", object("secret", "public"))
	must(err, "Encrypt")
	o2, err := w.d.Encrypt(bg, "owner", object("another one", ""), names("g", nd.Choose("listed", 4))...)
	must(err, "Encrypt")
	c := &caller{uid: plain("uid", 2), scope: id.Scope(nd.Uint64("scope"))}
	for i := nd.Choose("ngroups", 2); i > 0; i-- {
		c.groups = append(c.groups, id.AccessGroup{ID: plain("gid", 2), Scopes: id.Scope(nd.Uint64("gscope"))})
	}
	op := objectOps[nd.Choose("op", len(objectOps))]
	token, known := callerToken(w.ip, c)
	switch nd.Choose("second", 5) {
	case 0:
	case 1: // a deletion was interrupted
		must(w.st.Delete(bg, o2.Bytes(), io.DataTypeSealedObject), "Delete")
	case 2:
		must(w.st.Update(bg, o2.Bytes(), io.DataTypeSealedObject, []byte("?")), "Update")
	case 3:
		must(w.d.AddGroupsToAccess(bg, "owner", o2, "x", "y"), "AddGroupsToAccess")
	case 4:
		nd.Assume(!known || !has(c.scope, op.scope))
		o2 = uuid.UUID{1, 2, 3}
	}
	nd.MapOrder(true)
	e1, _ := op.run(w, token, o1)
	e2, _ := op.run(w, token, o2)
	if e1 == nil {
		// the lists of the two objects do not name the caller
		nd.Assert(false, op.name+": a caller that is not on the list is refused")
	}
	nd.Reach("refused")
	nd.Assert(e2 != nil && e1.Error() == e2.Error(), op.name+": a refusal is the same for every object and list")
}

//prop: C02
// Whatever the token is, it is the identity provider that decides what it stands for.
func H02Token() {
	w := newWorld()
	w.ip.add("owner", ident("owner", scopeAll))
	oid, err := w.d.Encrypt(bg, "owner", object("secret", "public"), "u")
	must(err, "Encrypt")
	c := &caller{uid: "u", scope: id.Scope(nd.Uint64("scope"))}
	op := objectOps[nd.Choose("op", len(objectOps))]
	tok := nd.String("known token", pick("known token.len", 0, 1, 2, 7))
	w.ip.add(tok, c.identity())
	try := tok
	if nd.Choose("other", 2) == 1 {
		try = nd.String("token", pick("token.len", 0, 1, 2, 7, 8))
		nd.Assume(try != tok && try != "owner")
	}
	err, leaked := op.run(w, try, oid)
	ok := try == tok && c.granted([]string{"owner", "u"}, op.scope)
	nd.Assert((err == nil) == ok && (ok || !leaked), op.name+": a token stands for whom the identity provider says")
	nd.Assert(try == tok || errors.Is(err, d1.ErrNotAuthenticated), op.name+": an unknown token is not authenticated")
}
