package h

import (
	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/nd"
)

// tamper changes b in place by an arbitrary non-zero difference, or changes its length.
func tamper(name string, b []byte) []byte {
	switch nd.Choose(name+".how", 5) {
	case 0:
		d := nd.Bytes(name, len(b))
		nd.Assume(nd.Not(nd.Eq(d, make([]byte, len(b)))))
		for i := range b {
			b[i] ^= d[i]
		}
		return b
	case 1:
		if len(b) == 0 {
			nd.Stop()
		}
		return b[:len(b)-pick(name+".cut", 1, min(8, len(b)), len(b))]
	case 2:
		return append(b, nd.Bytes(name+".ext", pick(name+".extlen", 1, 8))...)
	case 3:
		return append(nd.Bytes(name+".pre", 8), b...)
	}
	if len(b) == 0 {
		nd.Stop()
	}
	return b[pick(name+".skip", 1, min(8, len(b))):]
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// mutateObject changes one field of a stored object.
func mutateObject(raw []byte) []byte {
	var s data.SealedObject
	must(json.Unmarshal(raw, &s), "reading the stored object")
	switch nd.Choose("ofield", 3) {
	case 0:
		s.Ciphertext = tamper("ct", s.Ciphertext)
	case 1:
		s.AssociatedData = tamper("aad", s.AssociatedData)
	case 2:
		copy(s.OID[:], nd.Bytes("oid", 16))
	}
	out, err := json.Marshal(&s)
	must(err, "writing the stored object")
	return out
}

func mutateAccess(raw []byte) []byte {
	var s data.SealedAccess
	must(json.Unmarshal(raw, &s), "reading the stored access")
	switch nd.Choose("afield", 3) {
	case 0:
		s.Ciphertext = tamper("act", s.Ciphertext)
	case 1:
		s.WrappedKey = tamper("awk", s.WrappedKey)
	case 2:
		copy(s.OID[:], nd.Bytes("aoid", 16))
	}
	out, err := json.Marshal(&s)
	must(err, "writing the stored access")
	return out
}

// spliceAccess and spliceObject exchange single fields between two stored records.
func spliceObject(a, b []byte) []byte {
	var x, y data.SealedObject
	must(json.Unmarshal(a, &x), "reading the stored object")
	must(json.Unmarshal(b, &y), "reading the stored object")
	switch nd.Choose("splice", 3) {
	case 0:
		x.Ciphertext = y.Ciphertext
	case 1:
		x.AssociatedData = y.AssociatedData
	case 2:
		x.Ciphertext, x.AssociatedData = y.Ciphertext, y.AssociatedData
	}
	out, err := json.Marshal(&x)
	must(err, "writing the stored object")
	return out
}

func spliceAccess(a, b []byte) []byte {
	var x, y data.SealedAccess
	must(json.Unmarshal(a, &x), "reading the stored access")
	must(json.Unmarshal(b, &y), "reading the stored access")
	switch nd.Choose("splice", 2) {
	case 0:
		x.Ciphertext = y.Ciphertext
	case 1:
		x.WrappedKey = y.WrappedKey
	}
	out, err := json.Marshal(&x)
	must(err, "writing the stored access")
	return out
}

type version struct {
	obj    data.Object
	object []byte
	access []byte
}

func (w *world) raw(oid uuid.UUID) version {
	return version{object: clone(w.st.recs[w.st.find(oid.Bytes(), io.DataTypeSealedObject)].data),
		access: clone(w.st.recs[w.st.find(oid.Bytes(), io.DataTypeSealedAccess)].data)}
}

//prop: C05 share=3
// The storage changes a field of the object's or of its access record arbitrarily (any difference, other lengths):
// Decrypt fails or still returns the genuine contents, and authorizes no one new.
func H05Modified() {
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	w.ip.add("m", ident("mallory", scopeAll))
	o := symObject("o", pick("ptlen", 0, 3), pick("aadlen", 0, 2))
	want := cloneObject(o)
	oid, err := w.d.Encrypt(bg, "t", o)
	must(err, "Encrypt")
	oi, ai := w.st.find(oid.Bytes(), io.DataTypeSealedObject), w.st.find(oid.Bytes(), io.DataTypeSealedAccess)
	what := nd.Choose("what", tiered(2, 3))
	if what == 0 || what == 2 {
		w.st.recs[oi].data = mutateObject(w.st.recs[oi].data)
	}
	if what == 1 || what == 2 {
		w.st.recs[ai].data = mutateAccess(w.st.recs[ai].data)
	}
	if nd.Choose("reopen", 2) == 1 {
		w.reopen()
	}
	got, err := w.d.Decrypt(bg, "t", oid)
	if err == nil {
		nd.Reach("accepted")
		nd.Assert(sameObject(got, want), "Decrypt never returns something that was not encrypted under this identifier")
	} else {
		nd.Reach("rejected")
		nd.Assert(emptyObject(got), "a rejected object returns nothing")
	}
	got, err = w.d.Decrypt(bg, "m", oid)
	nd.Assert(err != nil && emptyObject(got), "tampering authorizes no one")
	g, err := w.d.GetAccessGroups(bg, "t", oid)
	if err == nil {
		nd.Assert(setEq(g, []string{"alice"}), "a tampered access list is never returned")
	}
	nd.Assert(w.d.AuthorizeIdentity(bg, "m", oid) != nil, "tampering authorizes no one")
}

//prop: C05 share=3
// The storage answers with records of other objects, of other types or of older versions, or with fields exchanged
// between them: an object only ever decrypts to contents that were stored under its own identifier, plaintext and
// associated data from one version, and only for members of one of its own access lists.
func H05Relocated() {
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	w.ip.add("m", ident("mallory", scopeAll))
	a := symObject("a", 2, 1)
	b := symObject("b", 2, 1)
	va := []data.Object{cloneObject(a)}
	vb := cloneObject(b)
	oa, err := w.d.Encrypt(bg, "t", a)
	must(err, "Encrypt")
	ob, err := w.d.Encrypt(bg, "m", b, "alice")
	must(err, "Encrypt")
	raws := []version{w.raw(oa), w.raw(ob)}
	if nd.Choose("update", 2) == 1 {
		n := symObject("n", 2, 1)
		va = append(va, cloneObject(n))
		must(w.d.Update(bg, "t", oa, n), "Update")
		raws = append(raws, w.raw(oa))
	}
	oi, ai := w.st.find(oa.Bytes(), io.DataTypeSealedObject), w.st.find(oa.Bytes(), io.DataTypeSealedAccess)
	any := func(name string) []byte {
		k := nd.Choose(name, 2*len(raws))
		if k%2 == 0 {
			return raws[k/2].object
		}
		return raws[k/2].access
	}
	switch nd.Choose("attack", 5) {
	case 0:
		w.st.recs[oi].data = any("object")
		w.st.recs[ai].data = any("access")
	case 1:
		w.st.recs[oi].data = spliceObject(any("object"), any("object2"))
	case 2:
		w.st.recs[ai].data = spliceAccess(any("access"), any("access2"))
	case 3:
		w.st.recs[oi].data = raws[nd.Choose("v1", len(raws))].object
		w.st.recs[ai].data = spliceAccess(raws[nd.Choose("v2", len(raws))].access, raws[nd.Choose("v3", len(raws))].access)
	case 4:
		// records exchanged between the two identifiers
		bi, bj := w.st.find(ob.Bytes(), io.DataTypeSealedObject), w.st.find(ob.Bytes(), io.DataTypeSealedAccess)
		if nd.Choose("swapo", 2) == 1 {
			w.st.recs[oi].data, w.st.recs[bi].data = w.st.recs[bi].data, w.st.recs[oi].data
		}
		if nd.Choose("swapa", 2) == 1 {
			w.st.recs[ai].data, w.st.recs[bj].data = w.st.recs[bj].data, w.st.recs[ai].data
		}
	}
	got, err := w.d.Decrypt(bg, "t", oa)
	if err == nil {
		nd.Reach("accepted")
		ok := false
		for _, v := range va {
			ok = nd.Or(ok, sameObject(got, v))
		}
		nd.Assert(ok, "an object decrypts only to contents stored under its own identifier")
	} else {
		nd.Reach("rejected")
	}
	_, err = w.d.Decrypt(bg, "m", oa)
	nd.Assert(err != nil, "another object's access list authorizes no one here")
	nd.Assert(w.d.AuthorizeIdentity(bg, "m", oa) != nil, "another object's access list authorizes no one here")
	got, err = w.d.Decrypt(bg, "m", ob)
	if err == nil {
		nd.Assert(sameObject(got, vb), "an object decrypts only to contents stored under its own identifier")
	}
}

//prop: C05
// Changing access through a tampered record is impossible: modifying operations on a record the storage altered fail
// or act on the genuine list.
func H05Modify() {
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	w.ip.add("m", ident("mallory", scopeAll))
	oid, err := w.d.Encrypt(bg, "t", object("p", ""))
	must(err, "Encrypt")
	ob, err := w.d.Encrypt(bg, "m", object("q", ""))
	must(err, "Encrypt")
	ai := w.st.find(oid.Bytes(), io.DataTypeSealedAccess)
	good := w.raw(oid)
	if nd.Choose("how", 2) == 0 {
		w.st.recs[ai].data = mutateAccess(w.st.recs[ai].data)
	} else {
		w.st.recs[ai].data = w.raw(ob).access
	}
	who := []string{"t", "m"}[nd.Choose("who", 2)]
	op := objectOps[nd.Choose("op", len(objectOps))]
	err, _ = op.run(w, who, oid)
	if who == "m" {
		nd.Assert(err != nil, op.name+": a tampered access record authorizes no one")
	}
	if op.name == "Delete" && err == nil {
		return
	}
	if err != nil {
		nd.Reach("failed")
		w.st.recs[w.st.find(oid.Bytes(), io.DataTypeSealedAccess)].data = good.access
	}
	got, err := w.d.GetAccessGroups(bg, "t", oid)
	nd.Assert(err == nil, "the genuine record still works")
	nd.Assert(setEq(got, []string{"alice"}) || op.name == "AddGroupsToAccess" && setEq(got, []string{"alice", "extra"}), "the list is the genuine one")
	nd.Assert(w.d.AuthorizeIdentity(bg, "m", oid) != nil, "tampering authorizes no one")
}
