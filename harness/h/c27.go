package h

import (
	"encoding/base64"
	"time"

	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/model"
	"verif/nd"
	"verif/vtime"
)

// The format of stored data, written down independently of the code: records are JSON objects; contents are encoded as
// JSON and encrypted with AES-256-GCM under a key of their own, authenticated with the JSON encoding of what they
// belong to; ciphertext, tag and nonce follow each other; the key is wrapped with AES-KWP.

type refObject struct {
	Ciphertext, AssociatedData []byte
	OID                        uuid.UUID
}
type refSealed struct {
	OID                    uuid.UUID
	Ciphertext, WrappedKey []byte
}
type refAccess struct {
	Groups     map[string]struct{}
	WrappedDEK []byte
}
type refToken struct {
	ExpiryTime             time.Time
	Ciphertext, WrappedKey []byte
}
type refUser struct {
	SaltAndHash []byte
	Scopes      uint64
	Groups      map[string]struct{}
}
type refGroup struct{ Scopes uint64 }
type refNode struct {
	Identifier  string
	NextCounter uint64
}

func text(v interface{}) []byte {
	b, err := json.Marshal(v)
	must(err, "writing JSON")
	return b
}

// refBox encrypts contents for what they belong to.
func refBox(kek []byte, contents, belongs interface{}) (wk, ct []byte) {
	return boxWith(nd.Bytes("dek", 32), nd.Bytes("nonce", 12), kek, contents, belongs)
}

func boxWith(dek, nonce, kek []byte, contents, belongs interface{}) (wk, ct []byte) {
	b, err := model.AesNewCipher(dek)
	must(err, "the reference cipher")
	g, err := model.CipherNewGCM(b)
	must(err, "the reference AEAD")
	ct = append(g.Seal(nil, nonce, text(contents), text(belongs)), nonce...)
	return refWrap(kek, dek), ct
}

// refUnbox opens what the code has encrypted.
func refUnbox(kek, wk, ct []byte, belongs, out interface{}) {
	u := refUnwrap(kek, wk)
	nd.Assert(len(u) == 40 && u[0] == 0xa6 && u[7] == 32, "the key is wrapped with AES-KWP")
	b, err := refOpen(clone(u[8:]), ct, text(belongs))
	must(err, "opening a record")
	must(json.Unmarshal(b, out), "reading a record")
}

//prop: C27
// Objects and access lists stored in the established format are read, with their contents, and what is stored is in
// that format.
func H27Objects() {
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	pt, aad := nd.Bytes("pt", pick("ptlen", 0, 1, 17)), nd.Bytes("aad", pick("aadlen", 0, 1, 16))
	if nd.Choose("direction", 2) == 0 {
		var oid uuid.UUID
		copy(oid[:], nd.Bytes("oid", 16))
		belongs := append(clone(oid[:]), aad...)
		wk, ct := refBox(keys().KEK, pt, belongs)
		groups := map[string]struct{}{"u": {}, "g": {}}
		must(w.st.Put(bg, oid.Bytes(), io.DataTypeSealedObject, text(refObject{ct, aad, oid})), "Put")
		awk, act := refBox(keys().AEK, refAccess{groups, wk}, oid.Bytes())
		must(w.st.Put(bg, oid.Bytes(), io.DataTypeSealedAccess, text(refSealed{oid, act, awk})), "Put")
		o, err := w.d.Decrypt(bg, "t", oid)
		must(err, "Decrypt")
		nd.Assert(sameObject(o, data.Object{Plaintext: pt, AssociatedData: aad}), "an object stored earlier is read")
		g, err := w.d.GetAccessGroups(bg, "t", oid)
		must(err, "GetAccessGroups")
		nd.Assert(setEq(g, []string{"u", "g"}), "an access list stored earlier is read")
		nd.Reach("read")
	} else {
		oid, err := w.d.Encrypt(bg, "t", &data.Object{Plaintext: clone(pt), AssociatedData: clone(aad)}, "g")
		must(err, "Encrypt")
		var so refObject
		var sa refSealed
		must(json.Unmarshal(w.st.recs[w.st.find(oid.Bytes(), io.DataTypeSealedObject)].data, &so), "reading the object")
		must(json.Unmarshal(w.st.recs[w.st.find(oid.Bytes(), io.DataTypeSealedAccess)].data, &sa), "reading the access record")
		var a refAccess
		refUnbox(keys().AEK, sa.WrappedKey, sa.Ciphertext, oid.Bytes(), &a)
		nd.Assert(setEq(a.Groups, []string{"u", "g"}), "the access list is stored in the established format")
		var p []byte
		refUnbox(keys().KEK, a.WrappedDEK, so.Ciphertext, append(clone(oid[:]), aad...), &p)
		nd.Assert(len(p) == len(pt) && nd.Eq(p, pt) && len(so.AssociatedData) == len(aad) && nd.Eq(so.AssociatedData, aad), "the object is stored in the established format")
		nd.Assert(so.OID == oid && sa.OID == oid, "records name their object")
		nd.Reach("written")
	}
}

//prop: C27
// Tokens in the established format open, and those that are made are in that format.
func H27Tokens() {
	vtime.Set(epoch, int64(pick("nsec", 0, 500)))
	w := newWorld()
	c := nd.Bytes("contents", pick("len", 0, 1, 17))
	if nd.Choose("direction", 2) == 0 {
		exp := vtime.Now().Add(time.Duration(pick("valid", 1, 3600)) * time.Second)
		wk, ct := refBox(keys().TEK, c, exp)
		s := base64.RawURLEncoding.EncodeToString(text(refToken{exp, ct, wk}))
		t, err := data.TokenFromString(s)
		must(err, "TokenFromString")
		got, err := w.d.GetTokenContents(bg, &t)
		nd.Assert(err == nil && len(got) == len(c) && nd.Eq(got, c), "a token made earlier opens")
	} else {
		t, err := w.d.CreateToken(bg, clone(c))
		must(err, "CreateToken")
		s, err := t.String()
		must(err, "String")
		raw, err := base64.RawURLEncoding.DecodeString(s)
		must(err, "decoding the token")
		var r refToken
		must(json.Unmarshal(raw, &r), "reading the token")
		nd.Assert(r.ExpiryTime.Equal(vtime.Now().Add(time.Hour)), "a token is valid for an hour")
		var got []byte
		refUnbox(keys().TEK, r.WrappedKey, r.Ciphertext, r.ExpiryTime, &got)
		nd.Assert(len(got) == len(c) && nd.Eq(got, c), "a token is made in the established format")
	}
}

//prop: C27
// Users, groups and logins in the established format work, and those that are made are in that format.
func H27Identity() {
	vtime.Set(epoch, 0)
	st := newStore()
	p, err := id.NewStandalone(saConfig(), st)
	must(err, "creating the identity provider")
	us, gs := nd.Uint64("user.scopes"), nd.Uint64("group.scopes")
	if nd.Choose("direction", 2) == 0 {
		pw, salt := plain("password", 4), nd.Bytes("salt", 8)
		hash := model.Pbkdf2Key([]byte(pw), salt, 10000, 32, model.Sha3New256)
		wk, ct := refBox(saConfig().UEK, refUser{append(clone(salt), hash...), us, map[string]struct{}{"grp": {}}}, "usr")
		must(st.Put(bg, []byte("usr"), id.DataTypeSealedUser, text(struct {
			UID                    string
			Ciphertext, WrappedKey []byte
		}{"usr", ct, wk})), "Put")
		wk, ct = refBox(saConfig().GEK, refGroup{gs}, "grp")
		must(st.Put(bg, []byte("grp"), id.DataTypeSealedGroup, text(struct {
			GID                    string
			Ciphertext, WrappedKey []byte
		}{"grp", ct, wk})), "Put")
		tok, _, err := p.LoginUser(bg, "usr", pw)
		must(err, "LoginUser")
		if nd.Choose("token", 2) == 1 {
			exp := vtime.Now().Add(time.Minute)
			twk, tct := refBox(saConfig().TEK, []byte("usr"), exp)
			tok = base64.RawURLEncoding.EncodeToString(text(refToken{exp, tct, twk}))
		}
		i, err := p.GetIdentity(bg, tok)
		must(err, "GetIdentity")
		nd.Assert(i.ID == "usr" && uint64(i.Scopes) == us && len(i.Groups) == 1 && uint64(i.Groups["grp"].Scopes) == gs, "a user stored earlier is read")
	} else {
		uid, pw, err := p.NewUser(bg, id.Scope(us))
		must(err, "NewUser")
		tok, _, err := p.LoginUser(bg, uid, pw)
		must(err, "LoginUser")
		gid, err := p.NewGroup(bg, tok, id.Scope(gs))
		must(err, "NewGroup")
		var s twoFields
		must(json.Unmarshal(st.recs[st.find([]byte(uid), id.DataTypeSealedUser)].data, &s), "reading the user")
		var u refUser
		refUnbox(saConfig().UEK, s.WrappedKey, s.Ciphertext, uid, &u)
		nd.Assert(len(u.SaltAndHash) == 40, "a user is stored in the established format")
		h := model.Pbkdf2Key([]byte(pw), u.SaltAndHash[:8], 10000, 32, model.Sha3New256)
		nd.Assert(u.Scopes == us && setEq(u.Groups, []string{gid}) && nd.Eq(u.SaltAndHash[8:], h), "a user is stored in the established format")
		must(json.Unmarshal(st.recs[st.find([]byte(gid), id.DataTypeSealedGroup)].data, &s), "reading the group")
		var g refGroup
		refUnbox(saConfig().GEK, s.WrappedKey, s.Ciphertext, gid, &g)
		nd.Assert(g.Scopes == gs, "a group is stored in the established format")
	}
}

//prop: C27
// Index entries in the established format are found, and those that are added are in that format: the label of an
// entry is the tag of the counter before it, under the keyword's keys.
func H27Index() {
	x := newIx()
	kw := nd.String("keyword", pick("klen", 0, 1, 5))
	names := []string{plain("i1", 2), plain("i2", pick("ilen", 0, 1))}
	tk, ek := refKMAC(256, keys().IEK, []byte(kw), 32, []byte("label")), refKMAC(256, keys().IEK, []byte(kw), 32, []byte("id"))
	label := func(n byte) []byte { return refKMAC(256, tk, nil, 32, text([]byte{n})) }
	if nd.Choose("direction", 2) == 0 {
		for k, s := range names {
			l := label(byte(k))
			wk, ct := refBox(ek, refNode{s, uint64(k) + 1}, l)
			must(x.st.Put(bg, l, io.DataTypeSealedNode, text(twoFields{ct, wk})), "Put")
		}
		r := x.search(kw)
		nd.Assert(len(r) == 2 && bagEq(r, names), "entries stored earlier are found")
		x.add(kw, "more")
		nd.Assert(len(x.search(kw)) == 3, "entries can be added to earlier ones")
	} else {
		for _, s := range names {
			x.add(kw, s)
		}
		nd.Assert(len(x.st.recs) == 2, "every entry has one record")
		for k, s := range names {
			l := label(byte(k))
			i := x.st.find(l, io.DataTypeSealedNode)
			nd.Assert(i >= 0, "labels are made in the established way")
			if i < 0 {
				nd.Stop()
			}
			var b twoFields
			must(json.Unmarshal(x.st.recs[i].data, &b), "reading the node")
			var n refNode
			refUnbox(ek, b.WrappedKey, b.Ciphertext, l, &n)
			nd.Assert(n.Identifier == s && n.NextCounter == uint64(k)+1, "entries are stored in the established format")
		}
	}
}
