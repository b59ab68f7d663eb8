package h

import (
	"github.com/cybercryptio/d1-lib/v2/crypto"

	"verif/model"
	"verif/nd"
)

func aead() *crypto.AES256GCM { return &crypto.AES256GCM{Random: &crypto.NativeRandom{}} }

// roomy returns b in an array with spare capacity.
func roomy(b []byte, spare int) []byte {
	out := make([]byte, len(b), len(b)+spare)
	copy(out, b)
	return out
}

// refOpen opens a ciphertext laid out as AES-256-GCM ciphertext, tag, nonce with the standard's AEAD.
func refOpen(key, ct, aad []byte) ([]byte, error) {
	b, err := model.AesNewCipher(key)
	must(err, "the reference cipher")
	g, err := model.CipherNewGCM(b)
	must(err, "the reference AEAD")
	n := len(ct) - 12
	return g.Open(nil, clone(ct[n:]), clone(ct[:n]), aad)
}

//prop: C14
// Encrypting any plaintext with any associated data under any key gives AES-256-GCM ciphertext, tag and nonce, 28
// bytes longer than the plaintext, and decrypts to the plaintext; whatever the capacity of the caller's slices.
func H14Roundtrip() {
	key := nd.Bytes("key", 32)
	pt := nd.Bytes("pt", pick("ptlen", 0, 1, 16, 33))
	aad := nd.Bytes("aad", pick("aadlen", 0, 1, 5))
	k, a := clone(key), roomy(aad, 8)
	ct, err := aead().Encrypt(roomy(pt, pick("cap", 0, 1, 28, 64)), a, k)
	must(err, "Encrypt")
	nd.Reach("encrypted")
	nd.Assert(len(ct) == len(pt)+crypto.Overhead && crypto.Overhead == 28, "the ciphertext is 28 bytes longer than the plaintext")
	nd.Assert(nd.And(nd.Eq(a, aad), nd.Eq(k, key)), "key and associated data are left alone")
	r, err := refOpen(key, ct, aad)
	nd.Assert(err == nil && len(r) == len(pt) && nd.Eq(r, pt), "the ciphertext is AES-256-GCM with the nonce at the end")
	got, err := aead().Decrypt(roomy(ct, pick("cap2", 0, 28)), a, k)
	nd.Assert(err == nil && len(got) == len(pt) && nd.Eq(got, pt), "decrypting returns the plaintext")
	nd.Assert(nd.And(nd.Eq(a, aad), nd.Eq(k, key)), "key and associated data are left alone")
}

//prop: C14
// A changed ciphertext, other associated data or another key: decryption fails and returns nothing.
func H14Tampered() {
	key := nd.Bytes("key", 32)
	pt := nd.Bytes("pt", pick("ptlen", 0, 1, 17))
	aad := nd.Bytes("aad", pick("aadlen", 0, 2))
	ct, err := aead().Encrypt(clone(pt), clone(aad), clone(key))
	must(err, "Encrypt")
	switch nd.Choose("what", 3) {
	case 0:
		ct = tamper("ct", ct)
	case 1:
		aad = tamper("aad", aad)
	case 2:
		d := nd.Bytes("d", 32)
		nd.Assume(!nd.Eq(d, make([]byte, 32)))
		for i := range key {
			key[i] ^= d[i]
		}
	}
	got, err := aead().Decrypt(ct, aad, key)
	nd.Reach("tampered")
	nd.Assert(err != nil && len(got) == 0, "what was not encrypted like this is rejected")
}

//prop: C14
// Arbitrary bytes are never accepted, whatever their length; keys of other lengths are refused by both operations.
func H14Lengths() {
	if nd.Choose("what", 2) == 0 {
		ct := nd.Bytes("ct", nd.Choose("len", 34))
		got, err := aead().Decrypt(ct, nd.Bytes("aad", 1), nd.Bytes("key", 32))
		nd.Assert(err != nil && len(got) == 0, "arbitrary bytes are rejected")
		return
	}
	n := nd.Choose("keylen", 49)
	if n == 32 {
		nd.Stop()
	}
	key := nd.Bytes("key", n)
	ct, err := aead().Encrypt([]byte("x"), nil, clone(key))
	nd.Assert(err != nil && len(ct) == 0, "keys have 32 bytes")
	pt, err := aead().Decrypt(make([]byte, 40), nil, clone(key))
	nd.Assert(err != nil && len(pt) == 0, "keys have 32 bytes")
	_, err = crypto.NewAESCryptor(key)
	nd.Assert(err != nil, "keys have 32 bytes")
}

type payload struct {
	B []byte
	S string
	N int
	T bool
	L []string
}

//prop: C14
// The cryptor returns the value it was given for the data it was given, uses a key of 32 bytes wrapped under its own
// key, and works again after any number of uses.
func H14Cryptor() {
	kek := nd.Bytes("kek", 32)
	c, err := crypto.NewAESCryptor(clone(kek))
	must(err, "NewAESCryptor")
	v := payload{nd.Bytes("b", nd.Choose("blen", 3)), plain("s", nd.Choose("slen", 3)), 42, nd.Choose("t", 2) == 1, []string{plain("l", 1)}}
	aad := plain("aad", nd.Choose("aadlen", 3))
	wk, ct, err := c.Encrypt(&v, aad)
	must(err, "Encrypt")
	c2, err := crypto.NewAESCryptor(clone(kek))
	must(err, "NewAESCryptor")
	for _, d := range []crypto.CryptorInterface{&c, &c2, &c} {
		var got payload
		wk0, ct0 := clone(wk), clone(ct)
		err = d.Decrypt(&got, aad, wk, ct)
		must(err, "Decrypt")
		nd.Assert(len(got.B) == len(v.B) && nd.And(nd.Eq(got.B, v.B), nd.EqStr(got.S, v.S)) && got.N == 42 && got.T == v.T, "the cryptor returns the value it was given")
		nd.Assert(len(got.L) == 1 && nd.EqStr(got.L[0], v.L[0]), "the cryptor returns the value it was given")
		nd.Assert(nd.And(nd.Eq(wk0, wk), nd.Eq(ct0, ct)), "decrypting leaves the ciphertext and the wrapped key alone")
	}
	nd.Reach("returned")
	dek, err := kwp(kek).Unwrap(wk)
	nd.Assert(err == nil && len(dek) == 32, "the data key has 32 bytes and is wrapped under the cryptor's key")
	j, err := refOpen(dek, ct, []byte(`"`+aad+`"`))
	nd.Assert(err == nil && len(j) > 0, "the value is encrypted with AES-256-GCM under the data key")
}

//prop: C14
// The cryptor rejects another key, changed or exchanged wrapped keys and ciphertexts, and other data; the destination
// keeps its value.
func H14CryptorTampered() {
	c, err := crypto.NewAESCryptor(keyOf(1))
	must(err, "NewAESCryptor")
	pt := []byte("value")
	wk, ct, err := c.Encrypt(&pt, "data")
	must(err, "Encrypt")
	pt2 := []byte("other")
	wk2, ct2, err := c.Encrypt(&pt2, "data")
	must(err, "Encrypt")
	var aad interface{} = "data"
	switch nd.Choose("what", 6) {
	case 0:
		ct = tamper("ct", ct)
	case 1:
		wk = tamper("wk", wk)
	case 2:
		s := plain("aad", nd.Choose("aadlen", 6))
		nd.Assume(!(len(s) == 4 && nd.EqStr(s, "data")))
		aad = s
	case 3:
		k, err := crypto.NewAESCryptor(otherKey("kek", keyOf(1)))
		must(err, "NewAESCryptor")
		c = k
	case 4:
		if nd.Choose("mix", 2) == 0 {
			wk = wk2
		} else {
			ct = ct2
		}
	case 5:
		aad = []interface{}{nil, []byte("data"), []string{"data"}, map[string]string{"data": ""}, 0}[nd.Choose("aadv", 5)]
	}
	got := []byte("before")
	err = c.Decrypt(&got, aad, wk, ct)
	nd.Reach("tampered")
	nd.Assert(err != nil && string(got) == "before", "the cryptor rejects what it did not produce and leaves the destination alone")
}

//prop: C14
// Larger plaintexts and associated data.
func H14Large() {
	n, m := pick("size", 15, 31, 32, 47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 5000, tiered(9000, 16385)), 2
	if nd.Choose("which", 2) == 1 {
		n, m = m, n
	}
	key, pt, aad := nd.Bytes("key", 32), nd.Bytes("pt", n), nd.Bytes("aad", m)
	ct, err := aead().Encrypt(clone(pt), aad, key)
	must(err, "Encrypt")
	nd.Assert(len(ct) == len(pt)+crypto.Overhead, "the ciphertext is 28 bytes longer than the plaintext")
	r, err := refOpen(key, ct, aad)
	nd.Assert(err == nil && len(r) == len(pt) && nd.Eq(r, pt), "the ciphertext is AES-256-GCM with the nonce at the end")
	got, err := aead().Decrypt(clone(ct), aad, key)
	nd.Assert(err == nil && len(got) == len(pt) && nd.Eq(got, pt), "decrypting returns the plaintext")
	bad := clone(ct)
	i := nd.Choose("at", 3)
	bad[[]int{0, len(bad) / 2, len(bad) - 1}[i]] ^= 1 << uint(nd.Choose("bit", 2)*7)
	got, err = aead().Decrypt(bad, aad, key)
	nd.Assert(err != nil && len(got) == 0, "a changed ciphertext is rejected")
	if m > 2 {
		other := clone(aad)
		other[[]int{0, len(other) / 2, len(other) - 1}[i]] ^= 1
		got, err = aead().Decrypt(clone(ct), other, key)
		nd.Assert(err != nil && len(got) == 0, "other associated data is rejected")
	}
}
