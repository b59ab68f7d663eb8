package h

import (
	"encoding/base64"

	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/model"
	"verif/nd"
	"verif/vtime"
)

// ledger keeps track of which bytes of the randomness have been used for what.
type ledger struct{ used []bool }

// take reports whether b is a run of bytes read from the source of randomness none of which was used before.
func (l *ledger) take(b []byte) bool {
	if len(b) == 0 {
		return true
	}
	var all []byte
	var starts []int
	for _, d := range model.Draws() {
		if len(d) == len(b) {
			starts = append(starts, len(all))
		}
		all = append(all, d...)
	}
	for len(l.used) < len(all) {
		l.used = append(l.used, false)
	}
	at := func(i int) bool {
		if i+len(b) > len(all) || !nd.Same(all[i:i+len(b)], b) {
			return false
		}
		for j := range b {
			if l.used[i+j] {
				return false
			}
		}
		for j := range b {
			l.used[i+j] = true
		}
		return true
	}
	for _, i := range starts { // values drawn on their own first
		if at(i) {
			return true
		}
	}
	for i := range all {
		if at(i) {
			return true
		}
	}
	return false
}

// box checks one ciphertext: its key (wrapped under kek) and its nonce are unused randomness.
func (l *ledger) box(kek, wrapped, ct []byte) {
	w, err := crypto.NewKWP(kek)
	must(err, "NewKWP")
	dek, err := w.Unwrap(clone(wrapped))
	must(err, "Unwrap")
	nd.Assert(len(dek) == 32 && l.take(dek), "every encryption uses 32 bytes of unused randomness as its key")
	nd.Assert(len(ct) >= 28 && l.take(ct[len(ct)-12:]), "every encryption uses 12 bytes of unused randomness as its nonce")
}

func cryptor(kek []byte) crypto.CryptorInterface {
	c, err := crypto.NewAESCryptor(kek)
	must(err, "NewAESCryptor")
	return &c
}

type twoFields struct{ Ciphertext, WrappedKey []byte }

//prop: C20 share=2
// Every object, access record and token written during a history of requests is encrypted under its own unused random
// key and nonce.
func H20Objects() {
	vtime.Set(epoch, 0)
	w := newWorld()
	w.ip.add("t", ident("u", scopeAll))
	l := &ledger{}
	var oid uuid.UUID
	n := tiered(3, 4)
	for i := 0; i < n; i++ {
		from := len(w.st.ops)
		op := 0
		if i > 0 {
			op = nd.Choose("op", 5)
		}
		switch op {
		case 0:
			o, err := w.d.Encrypt(bg, "t", object("text", "aad"), "g")
			must(err, "Encrypt")
			oid = o
		case 1:
			must(w.d.Update(bg, "t", oid, object("text", "aad")), "Update")
		case 2:
			must(w.d.AddGroupsToAccess(bg, "t", oid, "h"), "AddGroupsToAccess")
		case 3:
			must(w.d.RemoveGroupsFromAccess(bg, "t", oid, "g"), "RemoveGroupsFromAccess")
		case 4:
			t, err := w.d.CreateToken(bg, []byte("contents"))
			must(err, "CreateToken")
			l.box(keys().TEK, t.WrappedKey, t.Ciphertext)
		}
		var wdek, oct []byte
		for _, o := range w.st.ops[from:] {
			if o.kind == "get" {
				continue
			}
			switch o.dt {
			case io.DataTypeSealedAccess:
				var a data.SealedAccess
				must(json.Unmarshal(o.data, &a), "reading the access record")
				l.box(keys().AEK, a.WrappedKey, a.Ciphertext)
				a.OID = oid
				p, err := a.Unseal(cryptor(keys().AEK))
				must(err, "opening the access record")
				wdek = p.WrappedDEK
			case io.DataTypeSealedObject:
				var s data.SealedObject
				must(json.Unmarshal(o.data, &s), "reading the object")
				oct = s.Ciphertext
			}
		}
		if oct != nil {
			l.box(keys().KEK, wdek, oct)
		}
	}
	nd.Reach("end")
}

//prop: C20
// Every user, group, token and index node is encrypted under its own unused random key and nonce; generated passwords
// and salts are unused randomness.
func H20Identity() {
	vtime.Set(epoch, 0)
	st := newStore()
	s, err := id.NewStandalone(saConfig(), st)
	must(err, "creating the identity provider")
	l := &ledger{}
	check := func(from int) {
		for _, o := range st.ops[from:] {
			if o.kind == "get" || o.kind == "delete" {
				continue
			}
			var b twoFields
			must(json.Unmarshal(o.data, &b), "reading the record")
			kek := saConfig().UEK
			if o.dt == id.DataTypeSealedGroup {
				kek = saConfig().GEK
			}
			l.box(kek, b.WrappedKey, b.Ciphertext)
		}
	}
	password := func(pw string) {
		b, err := base64.RawURLEncoding.DecodeString(pw)
		nd.Assert(err == nil && len(b) == 32 && l.take(b), "a password is 32 bytes of unused randomness")
	}
	uid, pw, err := s.NewUser(bg, id.ScopeAll)
	must(err, "NewUser")
	password(pw)
	check(0)
	tok, _, err := s.LoginUser(bg, uid, pw)
	must(err, "LoginUser")
	n := tiered(2, 3)
	for i := 0; i < n; i++ {
		from := len(st.ops)
		switch nd.Choose("op", 4) {
		case 0:
			_, p, err := s.NewUser(bg, id.ScopeAll)
			must(err, "NewUser")
			password(p)
		case 1:
			_, err := s.NewGroup(bg, tok, id.ScopeAll)
			must(err, "NewGroup")
		case 2:
			p, err := s.ChangeUserPassword(bg, uid, pw)
			must(err, "ChangeUserPassword")
			password(p)
			pw = p
		case 3:
			ts, _, err := s.LoginUser(bg, uid, pw)
			must(err, "LoginUser")
			t, err := data.TokenFromString(ts)
			must(err, "TokenFromString")
			l.box(saConfig().TEK, t.WrappedKey, t.Ciphertext)
		}
		check(from)
	}
	nd.Reach("end")
}

//prop: C20
// Every node an index writes is encrypted with an unused random key and nonce, also when a deletion moves it.
func H20Index() {
	i := newIx()
	l := &ledger{}
	n := tiered(3, 4)
	names := []string{"a", "b"}
	for k := 0; k < n; k++ {
		from := len(i.st.ops)
		s := names[nd.Choose("name", 2)]
		if k < 2 || nd.Choose("op", 2) == 0 {
			i.add("w", s)
		} else {
			i.del("w", s)
		}
		kek := crypto.KMACKDF(crypto.EncryptionKeyLength, keys().IEK, []byte("id"), []byte("w"))
		for _, o := range i.st.ops[from:] {
			if o.kind == "put" || o.kind == "update" {
				var b twoFields
				must(json.Unmarshal(o.data, &b), "reading the node")
				l.box(kek, b.WrappedKey, b.Ciphertext)
			}
		}
	}
	nd.Reach("end")
}

//prop: C20
// The library's source of randomness returns the requested number of bytes, all of them random, none returned before.
func H20Random() {
	r := &crypto.NativeRandom{}
	l := &ledger{}
	for i := 0; i < 3; i++ {
		n := pick("n", 0, 1, 8, 12, 32, 33, 64)
		b, err := r.GetBytes(uint(n))
		must(err, "GetBytes")
		nd.Assert(len(b) == n && l.take(b), "random bytes are unused randomness")
	}
	c, err := crypto.NewPasswordHasher(), error(nil)
	must(err, "")
	p1, h1, err := c.GeneratePassword()
	must(err, "GeneratePassword")
	p2, h2, err := c.GeneratePassword()
	must(err, "GeneratePassword")
	for _, p := range []string{p1, p2} {
		b, err := base64.RawURLEncoding.DecodeString(p)
		nd.Assert(err == nil && len(b) == 32 && l.take(b), "a password is 32 bytes of unused randomness")
	}
	nd.Assert(len(h1) == 40 && len(h2) == 40 && l.take(h1[:8]) && l.take(h2[:8]), "salts are 8 bytes of unused randomness")
}

//prop: C20
// A given source of randomness is used as it is: the nonce of an AES-GCM encryption is the next 12 bytes of it; the
// predictable source for tests returns its bytes one after the other and fails when there are too few.
func H20Given() {
	src := nd.Bytes("src", 30)
	m := &crypto.MockRandom{Bytes: clone(src)}
	a := crypto.AES256GCM{Random: m}
	for i := 0; i < 2; i++ {
		ct, err := a.Encrypt([]byte("text"), nil, keyOf(byte(i)))
		must(err, "Encrypt")
		nd.Assert(len(ct) == 32 && nd.Eq(ct[20:], src[12*i:12*i+12]), "the nonce is what the source returned")
	}
	ct, err := a.Encrypt([]byte("text"), nil, keyOf(7))
	nd.Assert(err != nil && ct == nil, "no encryption without randomness")
	n := nd.Choose("n", 9)
	b, err := m.GetBytes(uint(n))
	if n > 6 {
		nd.Assert(err != nil && b == nil, "an exhausted source fails")
		b, err = m.GetBytes(6)
		n = 6
	}
	nd.Assert(err == nil && len(b) == n && nd.Eq(b, src[24:24+n]), "the source returns its bytes in order")
}
