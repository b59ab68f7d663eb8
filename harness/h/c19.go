package h

import (
	"errors"
	"fmt"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/model"
	"verif/nd"
	"verif/vtime"
)

// fault arms the store: its n-th operation from now on fails, before or after taking effect.
func (s *store) fault(n int) {
	s.failAt = len(s.ops) + n
	s.after = nd.Choose("after", 2) == 1
}

// faulted disarms the store and reports whether the fault was met.
func (s *store) faulted() bool {
	f := s.failAt >= 0 && s.failAt < len(s.ops)
	if f {
		s.failed = s.ops[s.failAt]
	}
	s.failAt = -1
	return f
}

// objRecs are the records of one object.
func (s *store) objRecs(oid uuid.UUID) []rec {
	var out []rec
	for _, r := range s.recs {
		if nd.Eq(r.id, oid.Bytes()) {
			out = append(out, r)
		}
	}
	return out
}

//prop: C19 share=2
// Whichever storage operation of a request fails, the request fails; the object is then readable as one of the
// versions stored before or by the request or not at all, other objects are unaffected, nobody gains access and the
// request can be repeated.
func H19Object() {
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	w.ip.add("m", ident("mallory", scopeAll))
	other, err := w.d.Encrypt(bg, "t", object("other", "aad"))
	must(err, "Encrypt")
	oid, err := w.d.Encrypt(bg, "t", object("old", "aad"), "g")
	must(err, "Encrypt")
	before := w.st.snapshot()
	ops := len(w.st.ops)
	what := nd.Choose("request", 7)
	w.st.fault(nd.Choose("fault", 3))
	request := func() error {
		switch what {
		case 0:
			return w.d.Update(bg, "t", oid, object("new", "aad2"))
		case 1:
			return w.d.Delete(bg, "t", oid)
		case 2:
			return w.d.AddGroupsToAccess(bg, "t", oid, "h")
		case 3:
			return w.d.RemoveGroupsFromAccess(bg, "t", oid, "g")
		case 4:
			o, err := w.d.Decrypt(bg, "t", oid)
			nd.Assert(err != nil || sameObject(o, *object("old", "aad")), "a decryption returns the object or fails")
			return err
		case 5:
			g, err := w.d.GetAccessGroups(bg, "t", oid)
			nd.Assert(err != nil || setEq(g, []string{"u", "g"}), "the access list is returned or the request fails")
			return err
		default:
			return w.d.AuthorizeIdentity(bg, "t", oid)
		}
	}
	err = request()
	if !w.st.faulted() {
		nd.Assert(err == nil, "without a fault the request succeeds")
		nd.Stop()
	}
	nd.Reach("failed")
	nd.Assert(err != nil, "a failing storage operation fails the request")
	nd.Assert(errors.Is(err, errStore), "the storage's error is passed on")
	if w.st.mutations(ops) == 0 {
		nd.Assert(sameRecs(before, w.st.recs), "a request that could not read changes nothing")
	}
	// a new instance finds what was left behind
	w.reopen()
	o, err := w.d.Decrypt(bg, "t", other)
	nd.Assert(err == nil && sameObject(o, *object("other", "aad")), "other objects are unaffected")
	nd.Assert(w.d.AuthorizeIdentity(bg, "m", oid) != nil, "nobody gains access")
	o, err = w.d.Decrypt(bg, "t", oid)
	if err == nil {
		isOld, isNew := sameObject(o, *object("old", "aad")), sameObject(o, *object("new", "aad2"))
		nd.Assert(isOld || what == 0 && isNew, "a decryption yields a version that was stored")
	} else {
		// the object is replaced, its access record with the new key is not
		f := w.st.failed
		between := what == 0 && f.kind == "update" && w.st.after == (f.dt == io.DataTypeSealedObject)
		nd.Known("interrupted-update", what == 1, between, "an object stays readable when a change of it is interrupted")
	}
	if what != 1 {
		g, err := w.d.GetAccessGroups(bg, "t", oid)
		nd.Assert(err == nil, "the access list survives an interruption")
		_, ok := g["u"]
		nd.Assert(ok, "members that nobody removed stay members")
		for n := range g {
			nd.Assert(n == "u" || n == "g" || n == "h" && what == 2, "nobody gains access")
		}
	}
	// once the storage works again the request can be repeated
	nd.Assert(request() == nil || what == 4 && err != nil, "an interrupted request can be repeated")
	switch what {
	case 0:
		o, err = w.d.Decrypt(bg, "t", oid)
		nd.Assert(err == nil && sameObject(o, *object("new", "aad2")), "the repeated update takes effect")
	case 1:
		nd.Assert(len(w.st.objRecs(oid)) == 0, "the repeated deletion removes everything stored for the object")
	case 2:
		g, err := w.d.GetAccessGroups(bg, "t", oid)
		nd.Assert(err == nil && setEq(g, []string{"u", "g", "h"}), "the repeated addition takes effect")
	case 3:
		g, err := w.d.GetAccessGroups(bg, "t", oid)
		nd.Assert(err == nil && setEq(g, []string{"u"}), "the repeated removal takes effect")
	}
}

//prop: C19
// An encryption that fails does not report an object, leaves nothing anybody can read, and does not disturb what is
// stored; identifiers already taken are not overwritten.
func H19Encrypt() {
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	other, err := w.d.Encrypt(bg, "t", object("other", "aad"))
	must(err, "Encrypt")
	w.st.fault(nd.Choose("fault", 2))
	oid, err := w.d.Encrypt(bg, "t", object("new", "aad"), "g")
	if !w.st.faulted() {
		nd.Assert(err == nil, "without a fault the request succeeds")
		nd.Stop()
	}
	nd.Reach("failed")
	nd.Assert(errors.Is(err, errStore), "a failing storage operation fails the encryption")
	nd.Assert(oid == uuid.Nil, "a failed encryption reports no object")
	w.reopen()
	o, err := w.d.Decrypt(bg, "t", other)
	nd.Assert(err == nil && sameObject(o, *object("other", "aad")), "other objects are unaffected")
	oid, err = w.d.Encrypt(bg, "t", object("new", "aad"), "g")
	nd.Assert(err == nil, "an interrupted request can be repeated")
	o, err = w.d.Decrypt(bg, "t", oid)
	nd.Assert(err == nil && sameObject(o, *object("new", "aad")), "the repeated encryption takes effect")
}

// odd is a storage provider that answers with given errors.
type odd struct{ err error }

func (o *odd) Put(_ ctxT, _ []byte, _ io.DataType, _ []byte) error    { return o.err }
func (o *odd) Get(_ ctxT, _ []byte, _ io.DataType) ([]byte, error)    { return nil, o.err }
func (o *odd) Update(_ ctxT, _ []byte, _ io.DataType, _ []byte) error { return o.err }
func (o *odd) Delete(_ ctxT, _ []byte, _ io.DataType) error           { return o.err }

//prop: C19
// Every error of the storage, also one that wraps a sentinel of the library, fails every request; only the deletion
// of what is not there succeeds, and sentinels are reported as the matching documented error.
func H19Errors() {
	var e error
	kind := nd.Choose("kind", 5)
	switch kind {
	case 0:
		e = errStore
	case 1:
		e = io.ErrNotFound
	case 2:
		e = io.ErrAlreadyExists
	case 3:
		e = fmt.Errorf("backend: %w", io.ErrNotFound)
	case 4:
		e = fmt.Errorf("backend: %w", io.ErrAlreadyExists)
	}
	missing, exists := kind == 1 || kind == 3, kind == 2 || kind == 4
	ip := &idp{}
	ip.add("t", ident("u", scopeAll))
	o := &odd{e}
	d, err := d1.New(bg, keyProvider(), o, ip)
	must(err, "creating an instance")
	x, err := index.NewSecureIndex(bg, keyProvider(), o, ip)
	must(err, "creating the index")
	s, err := id.NewStandalone(saConfig(), o)
	must(err, "creating the identity provider")
	oid := uuid.UUID{1}
	what := nd.Choose("request", 14)
	var want error
	on := func(c bool, w error) {
		if c {
			want = w
		}
	}
	switch what {
	case 0:
		_, err = d.Encrypt(bg, "t", object("a", "b"))
		on(exists, d1.ErrObjectAlreadyExists)
	case 1:
		err = d.Update(bg, "t", oid, object("a", "b"))
		on(missing, d1.ErrAccessNotFound)
	case 2:
		_, err = d.Decrypt(bg, "t", oid)
		on(missing, d1.ErrAccessNotFound)
	case 3:
		err = d.Delete(bg, "t", oid)
		if missing {
			nd.Assert(err == nil, "deleting what is not there succeeds")
			nd.Stop()
		}
	case 4:
		_, err = d.GetAccessGroups(bg, "t", oid)
		on(missing, d1.ErrAccessNotFound)
	case 5:
		err = d.AddGroupsToAccess(bg, "t", oid, "g")
		on(missing, d1.ErrAccessNotFound)
	case 6:
		err = d.RemoveGroupsFromAccess(bg, "t", oid, "g")
		on(missing, d1.ErrAccessNotFound)
	case 7:
		err = d.AuthorizeIdentity(bg, "t", oid)
		on(missing, d1.ErrAccessNotFound)
	case 8:
		err = x.Add(bg, "t", "w", "i")
		on(exists, nil)
	case 9:
		_, err = x.Search(bg, "t", "w")
		if missing {
			nd.Assert(err == nil, "searching an empty index succeeds")
			nd.Stop()
		}
	case 10:
		err = x.Delete(bg, "t", "w", "i")
		if missing {
			nd.Assert(err == nil, "deleting what is not there succeeds")
			nd.Stop()
		}
	case 11:
		_, _, err = s.NewUser(bg, id.ScopeEncrypt)
		on(exists, id.ErrUserAlreadyExists)
	case 12:
		_, _, err = s.LoginUser(bg, "u", "p")
		want = id.ErrNotAuthenticated
	case 13:
		_, err = s.ChangeUserPassword(bg, "u", "p")
		want = id.ErrNotAuthenticated
	}
	nd.Assert(err != nil, "a storage error fails the request")
	if want != nil {
		nd.Assert(errors.Is(err, want), "the documented error is reported")
	} else {
		nd.Assert(errors.Is(err, e), "the storage's error is passed on")
	}
}

//prop: C19 share=2
// Whichever storage operation of an index request fails, the request fails: no truncated results, no change of other
// keywords, and entries are found as before or after the request. That an interrupted deletion leaves a node which a
// later emptying of the keyword can bring back is a recorded finding.
func H19Index() {
	i := newIx()
	n := nd.Choose("entries", 4)
	names := []string{"a", "b", "c"}[:n]
	for _, s := range names {
		i.add("w", s)
	}
	i.add("v", "other")
	before := i.st.snapshot()
	ops := len(i.st.ops)
	what := nd.Choose("request", 3)
	victim := "a"
	if what == 1 && n > 1 {
		victim = names[nd.Choose("victim", n)]
	}
	i.st.fault(nd.Choose("fault", n+3))
	request := func() (r []string, err error) {
		switch what {
		case 0:
			err = i.x.Add(bg, "t", "w", "new")
		case 1:
			err = i.x.Delete(bg, "t", "w", victim)
		case 2:
			r, err = i.x.Search(bg, "t", "w")
			nd.Assert(err != nil || bagEq(r, names), "a search returns every entry or fails")
		}
		return
	}
	_, err := request()
	if !i.st.faulted() {
		nd.Assert(err == nil, "without a fault the request succeeds")
		nd.Stop()
	}
	nd.Reach("failed")
	nd.Assert(errors.Is(err, errStore), "a failing storage operation fails the request")
	if i.st.mutations(ops) == 0 {
		nd.Assert(sameRecs(before, i.st.recs), "a request that could not read changes nothing")
	}
	i.reopen()
	nd.Assert(bagEq(i.search("v"), []string{"other"}), "other keywords are unaffected")
	now := i.search("w")
	switch what {
	case 0:
		nd.Assert(bagEq(now, names) || bagEq(now, insert(names, "new")), "entries are found as before or after the request")
	case 1:
		nd.Assert(bagEq(now, names) || bagEq(now, remove(names, victim)), "entries are found as before or after the request")
	case 2:
		nd.Assert(bagEq(now, names), "a search changes nothing")
	}
	// repeat it
	if what == 0 && len(now) > n {
		nd.Stop()
	}
	_, err = request()
	nd.Assert(err == nil, "an interrupted request can be repeated")
	want := names
	switch what {
	case 0:
		want = insert(names, "new")
	case 1:
		want = remove(names, victim)
	}
	nd.Assert(bagEq(i.search("w"), want), "the repeated request takes effect")
	// and the index goes on
	for _, s := range want {
		i.del("w", s)
	}
	nd.Assert(len(i.search("w")) == 0, "everything can be deleted afterwards")
	i.add("w", "z")
	// the node was overwritten with its successor, whose own record was not removed
	f := i.st.failed
	between := what == 1 && (f.kind == "update" && i.st.after || f.kind == "delete" && !i.st.after)
	nd.Known("interrupted-index-delete", bagEq(i.search("w"), []string{"z"}), between, "what was deleted does not come back")
}

//prop: C19
// Whichever storage operation of an identity request fails, the request fails and grants nothing: tokens, scopes,
// passwords and memberships are those from before or after the request.
func H19Identity() {
	vtime.Set(epoch, 0)
	st := newStore()
	s, err := id.NewStandalone(saConfig(), st)
	must(err, "creating the identity provider")
	uid, pw, err := s.NewUser(bg, id.ScopeDecrypt)
	must(err, "NewUser")
	uid2, _, err := s.NewUser(bg, id.ScopeIndex)
	must(err, "NewUser")
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(err, "LoginUser")
	gid, err := s.NewGroup(bg, tok, id.ScopeUpdate)
	must(err, "NewGroup")
	what := nd.Choose("request", 8)
	st.fault(nd.Choose("fault", 5))
	pw2, nuid, ngid, tok2 := "", "", "", ""
	switch what {
	case 0:
		var i id.Identity
		i, err = s.GetIdentity(bg, tok)
		nd.Assert(err == nil || i.ID == "" && i.Scopes == 0 && len(i.Groups) == 0, "a failed look-up returns no identity")
	case 1:
		tok2, _, err = s.LoginUser(bg, uid, pw)
	case 2:
		pw2, err = s.ChangeUserPassword(bg, uid, pw)
	case 3:
		err = s.AddUserToGroups(bg, tok, uid2, gid)
	case 4:
		err = s.RemoveUserFromGroups(bg, tok, uid, gid)
	case 5:
		err = s.DeleteUser(bg, tok, uid2)
	case 6:
		ngid, err = s.NewGroup(bg, tok, id.ScopeDelete)
	case 7:
		nuid, _, err = s.NewUser(bg, id.ScopeAll)
	}
	if !st.faulted() {
		nd.Assert(err == nil, "without a fault the request succeeds")
		nd.Stop()
	}
	nd.Reach("failed")
	nd.Assert(err != nil, "a failing storage operation fails the request")
	nd.Assert(pw2 == "" && nuid == "" && ngid == "" && tok2 == "", "a failed request returns nothing")
	i, err := s.GetIdentity(bg, tok)
	must(err, "GetIdentity")
	nd.Assert(i.ID == uid && i.Scopes == id.ScopeDecrypt, "the user keeps identifier and scopes")
	for g, x := range i.Groups {
		nd.Assert(x.ID == g && (g == gid && x.Scopes == id.ScopeUpdate || what == 6 && x.Scopes == id.ScopeDelete), "no membership is gained")
	}
	if what != 4 {
		_, ok := i.Groups[gid]
		nd.Assert(ok, "no membership is lost")
	}
	if what != 2 || !st.after {
		_, _, err = s.LoginUser(bg, uid, pw)
		nd.Assert(err == nil, "the password is unchanged")
	}
}

// noKeys is a key provider that fails.
type noKeys struct{}

func (noKeys) GetKeys(ctxT) (key.Keys, error) { return keys(), errStore }

// noRandom is a source of randomness that fails.
type noRandom struct{}

func (noRandom) GetBytes(n uint) ([]byte, error) { return make([]byte, n), errStore }

//prop: C19
// A failing key provider, identity provider or source of randomness fails what depends on it, before anything is
// stored or encrypted.
func H19Providers() {
	st := newStore()
	switch nd.Choose("what", 4) {
	case 0:
		_, err := d1.New(bg, noKeys{}, st, &idp{})
		nd.Assert(errors.Is(err, errStore), "no instance without keys")
	case 1:
		_, err := index.NewSecureIndex(bg, noKeys{}, st, &idp{})
		nd.Assert(errors.Is(err, errStore), "no index without keys")
	case 2:
		a := crypto.AES256GCM{Random: noRandom{}}
		ct, err := a.Encrypt([]byte("secret"), nil, keyOf(1))
		nd.Assert(err != nil && ct == nil, "no encryption without randomness")
	case 3:
		w := newWorld()
		var err error
		switch nd.Choose("request", 3) {
		case 0:
			_, err = w.d.Encrypt(bg, "nobody", object("a", "b"))
		case 1:
			_, err = w.d.Decrypt(bg, "nobody", uuid.UUID{1})
		case 2:
			err = w.d.Delete(bg, "nobody", uuid.UUID{1})
		}
		nd.Assert(errors.Is(err, d1.ErrNotAuthenticated) && len(w.st.ops) == 0, "nothing is done for callers the identity provider does not know")
	}
}

//prop: C19
// When no identifier can be made, what needs one fails and nothing is stored; later it works again.
func H19Identifiers() {
	vtime.Set(epoch, 0)
	w, s := newWorld(), newSA()
	w.ip.add("t", ident("alice", scopeAll))
	uid, pw := s.user(scopeAll)
	t := s.login(uid, pw)
	before, before2 := w.st.snapshot(), s.st.snapshot()
	request := func(op int) (string, error) {
		switch op {
		case 0:
			oid, err := w.d.Encrypt(bg, "t", object("p", "a"), "g")
			if oid == uuid.Nil {
				return "", err
			}
			return oid.String(), err
		case 1:
			u, p, err := s.p.NewUser(bg, scopeAll)
			return u + p, err
		}
		return s.p.NewGroup(bg, t, scopeAll)
	}
	op := nd.Choose("request", 3)
	model.FailIDs(0)
	r, err := request(op)
	nd.Assert(err != nil && r == "", "a request that cannot make an identifier fails")
	nd.Assert(sameRecs(before, w.st.snapshot()) && sameRecs(before2, s.st.snapshot()), "nothing is stored by it")
	model.FailIDs(-1)
	r, err = request(op)
	nd.Assert(err == nil && r != "", "the request works when it is repeated")
}

var _ data.Object

// documented is the error that the documentation has for an answer e of the storage to operation o.
func documented(o op, e error) error {
	missing, exists := errors.Is(e, io.ErrNotFound), errors.Is(e, io.ErrAlreadyExists)
	switch {
	case missing && (o.kind == "get" || o.kind == "update"):
		switch o.dt {
		case io.DataTypeSealedObject:
			return d1.ErrObjectNotFound
		case io.DataTypeSealedAccess:
			return d1.ErrAccessNotFound
		case id.DataTypeSealedUser:
			return id.ErrUserNotFound
		case id.DataTypeSealedGroup:
			if o.kind == "get" {
				return id.ErrGroupNotFound
			}
		}
	case exists && o.kind == "put":
		switch o.dt {
		case io.DataTypeSealedObject:
			return d1.ErrObjectAlreadyExists
		case io.DataTypeSealedAccess:
			return d1.ErrAccessAlreadyExists
		case id.DataTypeSealedUser:
			return id.ErrUserAlreadyExists
		case id.DataTypeSealedGroup:
			return id.ErrGroupAlreadyExists
		}
	}
	return e
}

//prop: C19
// Whichever storage operation of a request answers that an entry is missing or exists, be it with an error that wraps
// the one of the io package: the request reports the error documented for that record.
func H19Sentinels() {
	vtime.Set(epoch, 0)
	e := []error{io.ErrNotFound, io.ErrAlreadyExists, fmt.Errorf("backend: %w", io.ErrNotFound),
		fmt.Errorf("backend: %w", io.ErrAlreadyExists)}[nd.Choose("error", 4)]
	missing := errors.Is(e, io.ErrNotFound)
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	oid, err := w.d.Encrypt(bg, "t", object("old", "aad"), "g")
	must(err, "Encrypt")
	s, err := id.NewStandalone(saConfig(), w.st)
	must(err, "creating the identity provider")
	uid, pw, err := s.NewUser(bg, id.ScopeDecrypt)
	must(err, "NewUser")
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(err, "LoginUser")
	gid, err := s.NewGroup(bg, tok, id.ScopeUpdate)
	must(err, "NewGroup")
	what := nd.Choose("request", 17)
	w.st.why = e
	w.st.failAt = len(w.st.ops) + nd.Choose("fault", 5)
	hidden := false
	switch what {
	case 0:
		_, err = w.d.Encrypt(bg, "t", object("new", "aad"))
	case 1:
		err = w.d.Update(bg, "t", oid, object("new", "aad"))
	case 2:
		_, err = w.d.Decrypt(bg, "t", oid)
	case 3:
		err = w.d.Delete(bg, "t", oid)
	case 4:
		_, err = w.d.GetAccessGroups(bg, "t", oid)
	case 5:
		err = w.d.AddGroupsToAccess(bg, "t", oid, "h")
	case 6:
		err = w.d.RemoveGroupsFromAccess(bg, "t", oid, "g")
	case 7:
		err = w.d.AuthorizeIdentity(bg, "t", oid)
	case 8:
		_, _, err = s.NewUser(bg, id.ScopeAll)
	case 9:
		_, _, err = s.LoginUser(bg, uid, pw)
		hidden = true
	case 10:
		_, err = s.ChangeUserPassword(bg, uid, pw)
		hidden = w.st.failAt < len(w.st.ops) && w.st.ops[w.st.failAt].kind == "get"
	case 11:
		_, err = s.GetIdentity(bg, tok)
	case 12:
		_, err = s.NewGroup(bg, tok, id.ScopeAll)
	case 13:
		err = s.AddUserToGroups(bg, tok, uid, gid)
	case 14:
		err = s.RemoveUserFromGroups(bg, tok, uid, gid)
	case 15:
		err = s.DeleteUser(bg, tok, uid)
	case 16:
		w.st.failAt = -1
		err = w.d.Update(bg, "t", uuid.UUID{1}, object("new", "aad"))
		nd.Assert(errors.Is(err, d1.ErrAccessNotFound), "the documented error is reported")
		nd.Stop()
	}
	if !w.st.faulted() {
		nd.Assert(err == nil, "without a fault the request succeeds")
		nd.Stop()
	}
	nd.Reach("failed")
	if what == 3 && missing && w.st.failed.kind == "get" {
		nd.Assert(err == nil, "deleting what is not there succeeds")
		nd.Stop()
	}
	want := documented(w.st.failed, e)
	if hidden {
		want = id.ErrNotAuthenticated
	}
	nd.Assert(err != nil, "a failing storage operation fails the request")
	nd.Assert(errors.Is(err, want), "the documented error is reported")
}
