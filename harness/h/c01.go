package h

import (
	"errors"

	"github.com/gofrs/uuid"

	d1 "github.com/cybercryptio/d1-lib/v2"
	"github.com/cybercryptio/d1-lib/v2/data"

	"verif/nd"
)

//prop: C01
// What was encrypted (and updated, any number of times within the bound) is what Decrypt returns, also through a
// fresh instance over the same storage.
func H01Roundtrip() {
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	obj := func() *data.Object {
		return symObject("o", pick("ptlen", -1, 0, 1, 3, 17), pick("aadlen", -1, 0, 1, 5))
	}
	o := obj()
	want := cloneObject(o)
	oid, err := w.d.Encrypt(bg, "t", o)
	must(err, "Encrypt")
	n := nd.Choose("updates", tiered(2, 3))
	for i := 0; i < n; i++ {
		o := obj()
		want = cloneObject(o)
		must(w.d.Update(bg, "t", oid, o), "Update")
	}
	if nd.Choose("reopen", 2) == 1 {
		w.reopen()
	}
	got, err := w.d.Decrypt(bg, "t", oid)
	must(err, "Decrypt")
	nd.Reach("decrypted")
	nd.Assert(nd.Eq(got.Plaintext, want.Plaintext), "Decrypt returns the plaintext that was stored last")
	nd.Assert(nd.Eq(got.AssociatedData, want.AssociatedData), "Decrypt returns the associated data that was stored last")
}

//prop: C01
// The same for larger objects, around sizes at which buffers and encodings change.
func H01Large() {
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	sizes := []int{15, 16, 31, 32, 47, 48, 63, 64, 65, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 4097, 16385}
	if nd.Tier() == 1 {
		sizes = append(sizes, 4095, 4096, 16384, 65537)
	}
	n, m := sizes[nd.Choose("size", len(sizes))], 3
	if nd.Choose("which", 2) == 1 {
		n, m = m, n
	}
	o := symObject("o", n, m)
	want := cloneObject(o)
	oid, err := w.d.Encrypt(bg, "t", o)
	must(err, "Encrypt")
	if nd.Choose("update", 2) == 1 {
		o = symObject("o", n, m)
		want = cloneObject(o)
		must(w.d.Update(bg, "t", oid, o), "Update")
	}
	got, err := w.d.Decrypt(bg, "t", oid)
	must(err, "Decrypt")
	nd.Assert(sameObject(got, want), "Decrypt returns what was stored last")
}

//prop: C01 share=2
// Any history of operations by two users on two objects: at every point each object reads back as last written, an
// operation on one object leaves the other alone, a deleted object is gone for good.
func H01History() {
	w := newWorld()
	w.ip.add("ta", ident("alice", scopeAll))
	w.ip.add("tb", ident("bob", scopeAll))
	type ref struct {
		oid    uuid.UUID
		obj    data.Object
		groups []string
		live   bool
	}
	var objs [2]ref
	users := []string{"alice", "bob"}
	toks := []string{"ta", "tb"}
	enc := func(k, u int) {
		o := symObject("e", 2, 1)
		objs[k] = ref{obj: cloneObject(o), groups: []string{users[u]}, live: true}
		var err error
		if nd.Choose("share", 2) == 1 {
			objs[k].groups = []string{"alice", "bob"}
			objs[k].oid, err = w.d.Encrypt(bg, toks[u], o, users[1-u])
		} else {
			objs[k].oid, err = w.d.Encrypt(bg, toks[u], o)
		}
		must(err, "Encrypt")
	}
	enc(0, 0)
	enc(1, nd.Choose("owner", 2))
	nd.Assert(objs[0].oid != objs[1].oid, "objects have distinct identifiers")
	n := tiered(2, 3)
	for i := 0; i < n; i++ {
		k, u := nd.Choose("obj", 2), nd.Choose("user", 2)
		r := &objs[k]
		allowed := r.live && member(r.groups, users[u])
		switch nd.Choose("op", 5) {
		case 0:
			o := symObject("u", 2, 1)
			c := cloneObject(o)
			err := w.d.Update(bg, toks[u], r.oid, o)
			nd.Assert((err == nil) == allowed, "Update succeeds exactly for members of a live object")
			if allowed {
				r.obj = c
			}
		case 1:
			err := w.d.AddGroupsToAccess(bg, toks[u], r.oid, "bob", "other")
			nd.Assert((err == nil) == allowed, "AddGroupsToAccess succeeds exactly for members of a live object")
			if allowed {
				r.groups = insert(insert(r.groups, "bob"), "other")
			}
		case 2:
			err := w.d.RemoveGroupsFromAccess(bg, toks[u], r.oid, "alice")
			nd.Assert((err == nil) == allowed, "RemoveGroupsFromAccess succeeds exactly for members of a live object")
			if allowed {
				r.groups = remove(r.groups, "alice")
			}
		case 3:
			err := w.d.Delete(bg, toks[u], r.oid)
			nd.Assert((err == nil) == (allowed || !r.live), "Delete succeeds exactly for members, or when there is nothing to delete")
			if allowed {
				r.live = false
			}
		case 4:
			w.reopen()
		}
	}
	for k := range objs {
		for u := range users {
			got, err := w.d.Decrypt(bg, toks[u], objs[k].oid)
			switch {
			case !objs[k].live:
				nd.Reach("deleted")
				nd.Assert(errors.Is(err, d1.ErrAccessNotFound) && emptyObject(got), "a deleted object is not found")
			case member(objs[k].groups, users[u]):
				nd.Reach("read")
				nd.Assert(err == nil, "a member can decrypt")
				nd.Assert(sameObject(got, objs[k].obj), "Decrypt returns what was stored last")
			default:
				nd.Reach("refused")
				nd.Assert(errors.Is(err, d1.ErrNotAuthorized) && emptyObject(got), "a user outside the access list is refused")
			}
		}
	}
}

//prop: C01
// Identifiers are never used again, whatever is stored: an object stored after a deletion has another identifier
// than the deleted one, also when its contents were chosen with that identifier in mind.
func H01Fresh() {
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	old, err := w.d.Encrypt(bg, "t", symObject("o", pick("ptlen", 0, 16), pick("aadlen", 0, 16)))
	must(err, "Encrypt")
	gone := nd.Choose("deleted", 2) == 1
	if gone {
		must(w.d.Delete(bg, "t", old), "Delete")
	}
	o := symObject("n", pick("ptlen2", 0, 16, 36), pick("aadlen2", 0, 16, 36))
	want := cloneObject(o)
	groups := [][]string{nil, {old.String()}}[nd.Choose("groups", 2)]
	oid, err := w.d.Encrypt(bg, "t", o, groups...)
	must(err, "Encrypt")
	nd.Assert(oid != old, "objects have distinct identifiers")
	got, err := w.d.Decrypt(bg, "t", oid)
	nd.Assert(err == nil && sameObject(got, want), "Decrypt returns what was stored last")
	_, err = w.d.Decrypt(bg, "t", old)
	nd.Assert((err == nil) == !gone, "a deleted object is gone for good")
}

//prop: C01
// Many objects in one store: each of them reads back as written last, wherever in the sequence it was stored, updated
// or deleted.
func H01Many() {
	nd.Opt("long")
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	n := pick("objects", 20, tiered(70, 140))
	var ids []uuid.UUID
	for i := 0; i < n; i++ {
		oid, err := w.d.Encrypt(bg, "t", object(nth("p", i), nth("a", i)))
		must(err, "Encrypt")
		ids = append(ids, oid)
	}
	if nd.Choose("read all", 2) == 1 {
		for i, oid := range ids {
			got, err := w.d.Decrypt(bg, "t", oid)
			nd.Assert(err == nil && string(got.Plaintext) == nth("p", i), "Decrypt returns what was stored last")
		}
	}
	k := somewhere("which", n)
	gone := false
	o := symObject("o", 16, 3)
	want := cloneObject(o)
	if nd.Choose("op", 2) == 0 {
		must(w.d.Update(bg, "t", ids[k], o), "Update")
	} else {
		must(w.d.Delete(bg, "t", ids[k]), "Delete")
		gone = true
	}
	if nd.Choose("reopen", 2) == 1 {
		w.reopen()
	}
	for i, oid := range ids {
		got, err := w.d.Decrypt(bg, "t", oid)
		switch {
		case i != k:
			nd.Assert(err == nil && string(got.Plaintext) == nth("p", i) && string(got.AssociatedData) == nth("a", i), "an operation on one object leaves the others alone")
		case gone:
			nd.Assert(err != nil, "a deleted object is gone for good")
		default:
			nd.Assert(err == nil && sameObject(got, want), "Decrypt returns what was stored last")
		}
	}
}

// twoInstances runs a history of operations on one object through two instances that are alive at the same time over
// one storage, in turns: each of them knows at once what was done through the other.
func twoInstances(n int) {
	w := newWorld()
	w.ip.add("ta", ident("alice", scopeAll))
	w.ip.add("tb", ident("bob", scopeAll))
	ws := [2]*world{w, {st: w.st, ip: w.ip}}
	ws[1].reopen()
	o := symObject("e", 2, 1)
	want := cloneObject(o)
	oid, err := w.d.Encrypt(bg, "ta", o, "bob")
	must(err, "Encrypt")
	groups, live := []string{"alice", "bob"}, true
	users, toks := []string{"alice", "bob"}, []string{"ta", "tb"}
	read := func(d d1.D1, u int) {
		got, err := d.Decrypt(bg, toks[u], oid)
		switch {
		case !live:
			nd.Reach("deleted")
			nd.Assert(errors.Is(err, d1.ErrAccessNotFound) && emptyObject(got), "a deleted object is gone, whichever instance deleted it")
		case member(groups, users[u]):
			nd.Reach("read")
			nd.Assert(err == nil && sameObject(got, want), "Decrypt returns what was stored last, whichever instance stored it")
		default:
			nd.Reach("refused")
			nd.Assert(errors.Is(err, d1.ErrNotAuthorized) && emptyObject(got), "access taken away through one instance is taken away in all")
		}
	}
	for i := 0; i < n; i++ {
		d, u := ws[nd.Choose("instance", 2)].d, 0
		switch nd.Choose("op", 6) {
		case 0:
			read(d, 1)
		case 1:
			o := symObject("u", 2, 1)
			c := cloneObject(o)
			err := d.Update(bg, toks[u], oid, o)
			nd.Assert((err == nil) == live, "Update succeeds exactly for a live object")
			if live {
				want = c
			}
		case 2:
			err := d.AddGroupsToAccess(bg, toks[u], oid, "bob")
			nd.Assert((err == nil) == live, "AddGroupsToAccess succeeds exactly for a live object")
			if live {
				groups = insert(groups, "bob")
			}
		case 3:
			err := d.RemoveGroupsFromAccess(bg, toks[u], oid, "bob")
			nd.Assert((err == nil) == live, "RemoveGroupsFromAccess succeeds exactly for a live object")
			if live {
				groups = remove(groups, "bob")
			}
		case 4:
			must(d.Delete(bg, toks[u], oid), "Delete")
			live = false
		case 5:
			err := d.AuthorizeIdentity(bg, toks[1], oid)
			nd.Assert((err == nil) == (live && member(groups, "bob")), "AuthorizeIdentity follows the access list as it is now")
		}
	}
	d := ws[nd.Choose("at last", 2)].d
	read(d, 0)
	read(d, 1)
	if live {
		got, err := d.GetAccessGroups(bg, "ta", oid)
		nd.Assert(err == nil && setEq(got, groups), "GetAccessGroups returns the list as it is now, whichever instance changed it")
	}
}

//prop: C01
// Two instances over one storage, used in turns.
func H01Instances() { twoInstances(tiered(3, 4)) }
