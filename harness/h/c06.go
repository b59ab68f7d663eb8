package h

import (
	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/model"
	"verif/nd"
	"verif/vtime"
)

// sameOps compares what two runs asked of the storage.
func sameOps(a, b []op) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i].kind != b[i].kind || a[i].dt != b[i].dt || len(a[i].id) != len(b[i].id) || len(a[i].data) != len(b[i].data) {
			return false
		}
		ok = nd.And(ok, nd.Eq(a[i].id, b[i].id), nd.Eq(a[i].data, b[i].data))
	}
	return ok
}

// twice runs f with two secrets over the same stream of randomness.
func twice(f func(run int) *store) (a, b *store) {
	idealOnly()
	a = f(0)
	nd.ResetFresh()
	model.Reset()
	b = f(1)
	return
}

//prop: C06 share=2
// Two runs that differ only in plaintexts, group names, caller and keys of the same sizes send the storage exactly
// the same bytes over the same randomness: nothing the storage sees depends on them.
func H06Independent() {
	type secrets struct {
		pt, pt2, g, g2, uid string
	}
	l := pick("ptlen", 0, 1, 4)
	gl := pick("glen", 1, 3)
	var s [2]secrets
	for i := range s {
		s[i] = secrets{nd.String("pt", l), nd.String("pt2", l), plain("g", gl), plain("g2", gl), plain("uid", 3)}
		nd.Assume(s[i].g != s[i].g2 && s[i].uid != s[i].g && s[i].uid != s[i].g2)
	}
	script := nd.Choose("script", 5)
	a, b := twice(func(i int) *store {
		x := s[i]
		w := newWorld()
		w.ip.add("t", ident(x.uid, scopeAll))
		oid, err := w.d.Encrypt(bg, "t", object(x.pt, "public"), x.g)
		must(err, "Encrypt")
		switch script {
		case 1:
			must(w.d.Update(bg, "t", oid, object(x.pt2, "public2")), "Update")
		case 2:
			must(w.d.AddGroupsToAccess(bg, "t", oid, x.g2), "AddGroupsToAccess")
		case 3:
			must(w.d.RemoveGroupsFromAccess(bg, "t", oid, x.g), "RemoveGroupsFromAccess")
		case 4:
			_, err = w.d.Decrypt(bg, "t", oid)
			must(err, "Decrypt")
			must(w.d.Delete(bg, "t", oid), "Delete")
		}
		return w.st
	})
	nd.Reach("compared")
	nd.Assert(sameOps(a.ops, b.ops), "what the storage sees does not depend on the secrets")
}

//prop: C06
// The bytes of an object's ciphertext are exactly as long as the encoding requires, for any plaintext: equal lengths
// stay equal, whatever the contents.
func H06Length() {
	l := pick("ptlen", 0, 1, 2, 16, 33)
	var p [2]string
	for i := range p {
		p[i] = nd.String("pt", l)
	}
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	var ns [2]int
	for i := range p {
		oid, err := w.d.Encrypt(bg, "t", object(p[i], "x"))
		must(err, "Encrypt")
		ns[i] = len(w.raw(oid).object)
	}
	nd.Assert(ns[0] == ns[1], "the size of the stored object depends on the size of the plaintext only")
}

// forged is a set of stored records taken from a run under other keys.
func withKeys(w *world, k key.Keys) d1.D1 {
	kp := key.NewStatic(k)
	d, err := d1.New(bg, &kp, w.st, w.ip)
	must(err, "creating an instance")
	return d
}

// otherKey is an arbitrary key that differs from k.
func otherKey(name string, k []byte) []byte {
	d := nd.Bytes(name, 32)
	nd.Assume(nd.Not(nd.Eq(d, make([]byte, 32))))
	o := clone(k)
	for i := range o {
		o[i] ^= d[i]
	}
	return o
}

//prop: C06
// Without the key of a role nothing of that role can be read: an instance that has every key but the object key does
// not decrypt, one without the access key does not authorize anyone, one without the token key opens no token.
func H06Roles() {
	vtime.Set(1700000000, 0)
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	oid, err := w.d.Encrypt(bg, "t", object("secret", "public"))
	must(err, "Encrypt")
	tok, err := w.d.CreateToken(bg, []byte("contents"))
	must(err, "CreateToken")
	k := keys()
	role := nd.Choose("role", 3)
	switch role {
	case 0:
		k.KEK = otherKey("kek", k.KEK)
	case 1:
		k.AEK = otherKey("aek", k.AEK)
	case 2:
		k.TEK = otherKey("tek", k.TEK)
	}
	d := withKeys(w, k)
	o, err := d.Decrypt(bg, "t", oid)
	nd.Assert((err == nil) == (role == 2), "decrypting needs the object key and the access key, nothing else")
	nd.Assert(err != nil && emptyObject(o) || sameObject(o, *object("secret", "public")), "contents only with the right keys")
	err = d.AuthorizeIdentity(bg, "t", oid)
	nd.Assert((err == nil) == (role != 1), "authorizing needs the access key, nothing else")
	_, err = d.GetAccessGroups(bg, "t", oid)
	nd.Assert((err == nil) == (role != 1), "reading the access list needs the access key, nothing else")
	c, err := d.GetTokenContents(bg, &tok)
	nd.Assert((err == nil) == (role != 2) && (err == nil || len(c) == 0), "opening a token needs the token key, nothing else")
	nd.Reach("role")
}

//prop: C06
// Records of one role presented as another are rejected: the wrapped keys and ciphertexts of objects, access records
// and tokens are not interchangeable.
func H06Confusion() {
	vtime.Set(1700000000, 0)
	w := newWorld()
	w.ip.add("t", ident("alice", scopeAll))
	payload := nd.Bytes("payload", 3)
	tok, err := w.d.CreateToken(bg, clone(payload))
	must(err, "CreateToken")
	oid, err := w.d.Encrypt(bg, "t", &data.Object{Plaintext: clone(payload), AssociatedData: []byte{}})
	must(err, "Encrypt")
	ai := w.st.find(oid.Bytes(), io.DataTypeSealedAccess)
	var acc data.SealedAccess
	must(json.Unmarshal(w.st.recs[ai].data, &acc), "reading the stored access")
	switch nd.Choose("as", 2) {
	case 0:
		// a token as an access record
		acc.Ciphertext, acc.WrappedKey = tok.Ciphertext, tok.WrappedKey
		b, err := json.Marshal(&acc)
		must(err, "writing the stored access")
		w.st.recs[ai].data = b
		nd.Assert(w.d.AuthorizeIdentity(bg, "t", oid) != nil, "a token is not an access record")
	case 1:
		// an access record as a token
		st := data.SealedToken{ExpiryTime: tok.ExpiryTime, Ciphertext: acc.Ciphertext, WrappedKey: acc.WrappedKey}
		c, err := w.d.GetTokenContents(bg, &st)
		nd.Assert(err != nil && len(c) == 0, "an access record is not a token")
	}
}

var _ = uuid.Nil
var _ id.Scope
