package h

import (
	"encoding/base64"

	"github.com/cybercryptio/d1-lib/v2/crypto"

	"verif/model"
	"verif/nd"
)

//prop: C16
// A generated password is the unpadded base64url form of 32 random bytes and matches its own hash; no other password
// (without NUL bytes) does, and it matches no other hash.
func H16Generated() {
	p := crypto.NewPasswordHasher()
	pw, sh, err := p.GeneratePassword()
	must(err, "GeneratePassword")
	raw, err := base64.RawURLEncoding.DecodeString(pw)
	nd.Assert(err == nil && len(pw) == 43 && len(raw) == 32, "passwords carry 32 random bytes")
	nd.Assert(len(sh) == 40, "a salt of 8 bytes and a hash of 32 bytes are kept")
	nd.Assert(p.Compare(pw, sh), "a password matches its own hash")
	nd.Assert(p.Compare(pw, clone(sh)), "a password matches its own hash again")
	switch nd.Choose("other", 3) {
	case 0:
		try := anyPassword(pw)
		same := len(try) == len(pw) && nd.EqStr(try, pw)
		nd.Reach("password")
		nd.Assert(p.Compare(try, sh) == same, "a password is accepted exactly if it is the generated one")
	case 1:
		// salt or hash; both together could be the salted hash of the same password
		t := append(tamper("salt", clone(sh[:8])), sh[8:]...)
		if nd.Choose("part", 2) == 1 {
			t = append(clone(sh[:8]), tamper("hash", clone(sh[8:]))...)
		}
		nd.Reach("hash")
		nd.Assert(!p.Compare(pw, t), "a password does not match a changed hash")
	case 2:
		pw2, sh2, err := p.GeneratePassword()
		must(err, "GeneratePassword")
		if pw2 != pw {
			nd.Assert(!p.Compare(pw2, sh) && !p.Compare(pw, sh2), "a password matches its own hash only")
		}
	}
}

//prop: C16
// The hash is PBKDF2 with SHA3-256, 10000 iterations, over the salt that is kept with it.
func H16Reference() {
	p := crypto.NewPasswordHasher()
	pw, sh, err := p.GeneratePassword()
	must(err, "GeneratePassword")
	ref := model.Pbkdf2Key([]byte(pw), clone(sh[:8]), 10000, 32, model.Sha3New256)
	nd.Assert(nd.Eq(ref, sh[8:]), "the hash is PBKDF2-HMAC-SHA3-256 with 10000 iterations")
	salt := nd.Bytes("salt", 8)
	mine := plain("pw", nd.Choose("pwlen", 4))
	h := model.Pbkdf2Key([]byte(mine), clone(salt), 10000, 32, model.Sha3New256)
	nd.Assert(p.Compare(mine, append(clone(salt), h...)), "any password matches the hash made from it")
}

//prop: C16
// Stored hashes of any length and content: comparing never panics and never succeeds unless the content is the hash.
func H16Malformed() {
	p := crypto.NewPasswordHasher()
	sh := nd.Bytes("sh", nd.Choose("len", tiered(42, 60)))
	pw := plain("pw", nd.Choose("pwlen", 3))
	ok := p.Compare(pw, sh)
	nd.Reach("compared")
	if ok {
		nd.Reach("accepted")
		nd.Assert(len(sh) == 40 && nd.Eq(sh[8:], model.Pbkdf2Key([]byte(pw), clone(sh[:8]), 10000, 32, model.Sha3New256)), "only the hash of the password is accepted")
	}
}
