package h

import (
	"encoding/base64"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/nd"
	"verif/vtime"
)

// junk is a JSON text of the wrong kind, with fields missing, repeated or of other types, or not JSON at all.
func junk(name string) []byte {
	lits := []string{
		"", "null", "{}", "[]", "0", `"x"`, "true", "{", `{"Ciphertext":null,"WrappedKey":null}`, `{"Ciphertext":"","WrappedKey":""}`,
		`{"Ciphertext":"AAAA","WrappedKey":"AAAA"}`, `{"Ciphertext":5}`, `{"Ciphertext":{},"WrappedKey":[]}`, `{"WrappedKey":"*"}`,
		`{"ExpiryTime":"2100-01-01T00:00:00Z"}`, `{"ExpiryTime":""}`, `{"ExpiryTime":7,"Ciphertext":"AA"}`,
		`{"OID":"x"}`, `{"OID":null,"Ciphertext":"AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"}`, `{"ID":"","Scopes":-1}`,
		`{"Groups":null}`, `{"AssociatedData":"AA==","Ciphertext":"AA=="} x`, "\x00", "nul",
	}
	k := nd.Choose(name, len(lits)+3)
	if k < len(lits) {
		return []byte(lits[k])
	}
	switch k - len(lits) {
	case 0:
		return nd.Bytes(name+".raw", nd.Choose(name+".len", tiered(4, 6)))
	case 1:
		return append([]byte("{"), nd.Bytes(name+".raw", pick(name+".len", 1, 2, tiered(2, 4)))...)
	default:
		// well-formed, with fields of any sizes
		type fields struct{ Ciphertext, WrappedKey []byte }
		f := fields{nd.Bytes(name+".ct", pick(name+".ctlen", 0, 1, 11, 12, 27, 28, 29, 44)), nd.Bytes(name+".wk", pick(name+".wklen", 0, 7, 8, 16, 23, 24, 32, 40, 41))}
		b, err := jsonText(f)
		must(err, "writing a record")
		return b
	}
}

//prop: C23
// Any string given as a token, in any encoding of the bounded lengths, is answered with an error.
func H23Tokens() {
	vtime.Set(epoch, 0)
	var s string
	switch nd.Choose("form", 3) {
	case 0:
		s = nd.String("token", nd.Choose("len", tiered(5, 8)))
	case 1:
		s = base64.RawURLEncoding.EncodeToString(junk("json"))
	case 2:
		s = base64.StdEncoding.EncodeToString([]byte(`{"ExpiryTime":"2100-01-01T00:00:00Z"}`)) + nd.String("more", nd.Choose("len", 3))
	}
	w := newWorld()
	t, err := data.TokenFromString(s)
	if err == nil {
		nd.Reach("parsed")
		b, err := w.d.GetTokenContents(bg, &t)
		nd.Assert(err != nil && len(b) == 0, "a string that is no token is refused")
	} else {
		nd.Reach("refused")
	}
	p, err := id.NewStandalone(saConfig(), newStore())
	must(err, "creating the identity provider")
	i, err := p.GetIdentity(bg, s)
	nd.Assert(err != nil && i.ID == "" && i.Scopes == 0 && len(i.Groups) == 0, "a string that is no token is refused")
}

//prop: C23 share=2
// Whatever bytes the storage returns for an object or its access record, every operation ends with an error or, where
// it does not need the record, with its result.
func H23Objects() {
	vtime.Set(epoch, 0)
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	oid, err := w.d.Encrypt(bg, "t", object("text", "aad"))
	must(err, "Encrypt")
	dt := []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess}[nd.Choose("record", 2)]
	w.st.recs[w.st.find(oid.Bytes(), dt)].data = junk("data")
	access := dt == io.DataTypeSealedAccess
	switch nd.Choose("op", 6) {
	case 0:
		o, err := w.d.Decrypt(bg, "t", oid)
		nd.Assert(err != nil && emptyObject(o), "a malformed record is refused")
	case 1:
		err = w.d.Update(bg, "t", oid, object("more", "aad"))
		nd.Assert((err != nil) == access, "a malformed access record is refused")
	case 2:
		g, err := w.d.GetAccessGroups(bg, "t", oid)
		nd.Assert((err != nil) == access && (err == nil || len(g) == 0), "a malformed access record is refused")
	case 3:
		err = w.d.AddGroupsToAccess(bg, "t", oid, "g")
		nd.Assert((err != nil) == access, "a malformed access record is refused")
	case 4:
		err = w.d.RemoveGroupsFromAccess(bg, "t", oid, "g")
		nd.Assert((err != nil) == access, "a malformed access record is refused")
	case 5:
		err = w.d.AuthorizeIdentity(bg, "t", oid)
		nd.Assert((err != nil) == access, "a malformed access record is refused")
	}
	nd.Reach("answered")
}

//prop: C23
// The same for index entries, users and groups.
func H23Others() {
	vtime.Set(epoch, 0)
	switch nd.Choose("what", 3) {
	case 0:
		x := newIx()
		x.add("w", "one")
		x.add("w", "two")
		k := nd.Choose("record", 2)
		x.st.recs[k].data = junk("data")
		switch nd.Choose("op", 3) {
		case 0:
			r, err := x.x.Search(bg, "t", "w")
			nd.Assert(err != nil && len(r) == 0, "a malformed entry is refused")
		case 1:
			nd.Assert(x.x.Add(bg, "t", "w", "three") != nil, "a malformed entry is refused")
		case 2:
			err := x.x.Delete(bg, "t", "w", "two")
			nd.Assert(err != nil, "a malformed entry is refused")
		}
	case 1, 2:
		st := newStore()
		p, err := id.NewStandalone(saConfig(), st)
		must(err, "creating the identity provider")
		uid, pw, err := p.NewUser(bg, id.ScopeAll)
		must(err, "NewUser")
		tok, _, err := p.LoginUser(bg, uid, pw)
		must(err, "LoginUser")
		gid, err := p.NewGroup(bg, tok, id.ScopeAll)
		must(err, "NewGroup")
		user := nd.Choose("record", 2) == 0
		if user {
			st.recs[st.find([]byte(uid), id.DataTypeSealedUser)].data = junk("data")
		} else {
			st.recs[st.find([]byte(gid), id.DataTypeSealedGroup)].data = junk("data")
		}
		switch nd.Choose("op", 5) {
		case 0:
			_, _, err = p.LoginUser(bg, uid, pw)
			nd.Assert((err != nil) == user, "a malformed user is refused")
		case 1:
			_, err = p.ChangeUserPassword(bg, uid, pw)
			nd.Assert((err != nil) == user, "a malformed user is refused")
		case 2:
			_, err = p.GetIdentity(bg, tok)
			nd.Assert(err != nil, "a malformed record is refused")
		case 3:
			err = p.AddUserToGroups(bg, tok, uid, gid)
			nd.Assert(err != nil, "a malformed record is refused")
		case 4:
			_, err = p.NewGroup(bg, tok, id.ScopeAll)
			nd.Assert(err != nil, "a malformed record is refused")
		}
	}
	nd.Reach("answered")
}

//prop: C23
// Arbitrary arguments: unknown object identifiers, users, groups, passwords, keywords and empty or missing lists get a
// result or an error.
func H23Arguments() {
	vtime.Set(epoch, 0)
	s := nd.String("s", nd.Choose("len", 4))
	switch nd.Choose("what", 3) {
	case 0:
		w := newWorld()
		w.ip.add("t", ident("u", scopeAll))
		var oid uuid.UUID
		copy(oid[:], nd.Bytes("oid", 16))
		o, err := w.d.Decrypt(bg, "t", oid)
		nd.Assert(err != nil && emptyObject(o), "there is no such object")
		nd.Assert(w.d.Update(bg, "t", oid, &data.Object{}) != nil, "there is no such object")
		nd.Assert(w.d.AddGroupsToAccess(bg, "t", oid) != nil, "there is no such object")
		nd.Assert(w.d.RemoveGroupsFromAccess(bg, "t", oid) != nil, "there is no such object")
		nd.Assert(w.d.AuthorizeIdentity(bg, "t", oid) != nil, "there is no such object")
		_, err = w.d.GetAccessGroups(bg, "t", oid)
		nd.Assert(err != nil, "there is no such object")
		nd.Assert(w.d.Delete(bg, "t", oid) == nil, "deleting what is not there succeeds")
		_, err = w.d.GetTokenContents(bg, &data.SealedToken{})
		nd.Assert(err != nil, "an empty token is refused")
		s = plain("group", len(s))
		k, err := w.d.Encrypt(bg, "t", &data.Object{}, []string{s, s, ""}[:nd.Choose("groups", 4)]...)
		must(err, "Encrypt")
		o, err = w.d.Decrypt(bg, "t", k)
		nd.Assert(err == nil && emptyObject(o), "an empty object can be stored")
	case 1:
		p, err := id.NewStandalone(saConfig(), newStore())
		must(err, "creating the identity provider")
		uid, pw, err := p.NewUser(bg)
		must(err, "NewUser")
		tok, _, err := p.LoginUser(bg, uid, pw)
		must(err, "LoginUser")
		_, _, err = p.LoginUser(bg, s, pw)
		nd.Assert(err != nil, "an unknown user cannot log in")
		_, _, err = p.LoginUser(bg, uid, s)
		nd.Assert(err != nil, "another password is refused")
		nd.Assert(p.AddUserToGroups(bg, tok, s) != nil, "an unknown user cannot be added")
		nd.Assert(p.AddUserToGroups(bg, tok, uid, s) != nil, "an unknown group is refused")
		nd.Assert(p.RemoveUserFromGroups(bg, tok, uid, s) != nil, "an unknown group is refused")
		nd.Assert(p.AddUserToGroups(bg, tok, uid) == nil, "no groups, nothing to do")
		nd.Assert(p.DeleteUser(bg, tok, s) == nil, "deleting what is not there succeeds")
	case 2:
		x := newIx()
		i := plain("i", nd.Choose("ilen", 3))
		must(x.x.Delete(bg, "t", s, i), "Delete")
		must(x.x.Add(bg, "t", s, i), "Add")
		r, err := x.x.Search(bg, "t", s)
		nd.Assert(err == nil && len(r) == 1 && r[0] == i, "any keyword and identifier can be added")
	}
	nd.Reach("answered")
}

//prop: C23
// The primitives answer arbitrary bytes of any of the bounded sizes with an error.
func H23Primitives() {
	switch nd.Choose("what", 4) {
	case 0:
		n := nd.Choose("len", tiered(50, 80))
		u, err := kwp(keyOf(1)).Unwrap(nd.Bytes("ct", n))
		nd.Assert(err != nil && len(u) == 0, "arbitrary bytes are no wrapped key")
	case 1:
		a := crypto.AES256GCM{Random: &crypto.NativeRandom{}}
		b, err := a.Decrypt(nd.Bytes("ct", nd.Choose("len", tiered(40, 70))), symBytes("aad", nd.Choose("aadlen", 3)-1), nd.Bytes("key", pick("keylen", 0, 16, 31, 32, 33)))
		nd.Assert(err != nil && len(b) == 0, "arbitrary bytes are no ciphertext")
	case 2:
		h := crypto.NewPasswordHasher()
		n := nd.Choose("hashlen", 60)
		ok := h.Compare(nd.String("password", nd.Choose("len", 3)), symBytes("hash", n-1))
		nd.Assert(!ok || n == 41, "arbitrary bytes of another size are no hash of a password")
	case 3:
		c := cryptor(keyOf(9))
		var out struct {
			A []byte
			B map[string]struct{}
		}
		err := c.Decrypt(&out, nil, symBytes("wk", pick("wklen", -1, 0, 1, 8, 24, 40, 48)), symBytes("ct", pick("ctlen", -1, 0, 1, 12, 28, 29, 60)))
		nd.Assert(err != nil && out.A == nil && out.B == nil, "arbitrary bytes decrypt to nothing")
	}
	nd.Reach("answered")
}
