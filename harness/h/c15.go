package h

import (
	"hash"

	"golang.org/x/crypto/sha3"

	"github.com/cybercryptio/d1-lib/v2/crypto"

	"verif/model"
	"verif/nd"
)

// refEncode is right_encode or the prefix of left_encode of SP 800-185: the shortest big-endian form of n.
func refInt(n int) []byte {
	var b []byte
	for n > 0 {
		b = append([]byte{byte(n)}, b...)
		n >>= 8
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	return b
}

func refLeft(n int) []byte {
	b := refInt(n)
	return append([]byte{byte(len(b))}, b...)
}

func refRight(n int) []byte {
	b := refInt(n)
	return append(clone(b), byte(len(b)))
}

// refKMAC is KMAC of SP 800-185 section 4 over cSHAKE.
func refKMAC(bits int, key, msg []byte, size int, cust []byte) []byte {
	rate := 136
	var c sha3.ShakeHash
	if bits == 128 {
		rate = 168
		c = model.Sha3NewCShake128([]byte("KMAC"), cust)
	} else {
		c = model.Sha3NewCShake256([]byte("KMAC"), cust)
	}
	in := append(refLeft(rate), append(refLeft(8*len(key)), key...)...)
	for len(in)%rate != 0 {
		in = append(in, 0)
	}
	in = append(in, msg...)
	in = append(in, refRight(8*size)...)
	c.Write(in)
	out := make([]byte, size)
	c.Read(out)
	return out
}

func newMAC(bits int, key []byte, size int, cust []byte) hash.Hash {
	if bits == 128 {
		return crypto.NewKMAC128(key, size, cust)
	}
	return crypto.NewKMAC256(key, size, cust)
}

//prop: C15 share=2
// The MAC is KMAC of SP 800-185 for any key, message, customization string and output size.
func H15Reference() {
	bits := pick("bits", 256, 128)
	var kl int
	if bits == 256 {
		kl = pick("keylen", 32, 33, 64, 130, 131, 132, 136, 139, 267)
	} else {
		kl = pick("keylen", 16, 31, 32, 162, 163, 164, 168, 171)
	}
	key := nd.Bytes("key", kl)
	msg := nd.Bytes("msg", pick("msglen", 0, 1, 8, 137))
	cust := nd.Bytes("cust", pick("custlen", 0, 1, 5))
	size := pick("size", 8, 32, 64)
	m := newMAC(bits, key, size, cust)
	nd.Assert(m.Size() == size, "the size of the MAC is the requested one")
	nd.Assert(m.BlockSize() == map[int]int{128: 168, 256: 136}[bits], "the block size is the rate of the sponge")
	m.Write(msg)
	got := m.Sum(nil)
	nd.Reach("computed")
	ref := refKMAC(bits, key, msg, size, cust)
	nd.Assert(len(got) == size && nd.Eq(got, ref), "the MAC is KMAC of SP 800-185")
}

//prop: C15
// The MAC behaves as a hash.Hash: the message may be written in any pieces, Sum appends to its argument and does not
// change the state, Reset starts over.
func H15Stream() {
	bits := pick("bits", 256, 128)
	key := nd.Bytes("key", 32)
	msg := nd.Bytes("msg", 3)
	cust := nd.Bytes("cust", pick("custlen", 0, 2))
	ref := refKMAC(bits, key, msg, 32, cust)
	m := newMAC(bits, key, 32, cust)
	if nd.Choose("reset first", 2) == 1 {
		m.Write(nd.Bytes("junk", 2))
		if nd.Choose("sum first", 2) == 1 {
			m.Sum(nil)
		}
		m.Reset()
	}
	a := nd.Choose("a", 4)
	b := a + nd.Choose("b", 4-a)
	for _, p := range [][]byte{msg[:a], msg[a:b], msg[b:]} {
		n, err := m.Write(p)
		nd.Assert(n == len(p) && err == nil, "writing never fails")
		if nd.Choose("sum between", 2) == 1 {
			m.Sum([]byte("x"))
		}
	}
	pre := nd.Bytes("pre", nd.Choose("prelen", 2))
	got := m.Sum(roomy(pre, pick("cap", 0, 40)))
	nd.Reach("sum")
	nd.Assert(len(got) == len(pre)+32 && nd.And(nd.Eq(got[:len(pre)], pre), nd.Eq(got[len(pre):], ref)), "Sum appends the MAC of everything written")
	nd.Assert(nd.Eq(m.Sum(nil), ref), "Sum does not change the state")
	m.Reset()
	m.Write(msg)
	nd.Assert(nd.Eq(m.Sum(nil), ref), "Reset starts over with the same key")
}

//prop: C15
// Different keys, messages, customization strings or sizes give unrelated MACs: two MACs agree exactly when all four
// agree (cSHAKE ideal).
func H15Separate() {
	type in struct {
		key, msg, cust []byte
		size           int
	}
	var s [2]in
	for i := range s {
		s[i] = in{nd.Bytes("key", pick("keylen", 32, 33)), nd.Bytes("msg", pick("msglen", 0, 1, 2)), nd.Bytes("cust", pick("custlen", 0, 1, 2)), pick("size", 16, 32)}
	}
	x, y := s[0], s[1]
	m := func(v in) []byte {
		h := crypto.NewKMAC256(v.key, v.size, v.cust)
		h.Write(v.msg)
		return h.Sum(nil)
	}
	same := len(x.key) == len(y.key) && len(x.msg) == len(y.msg) && len(x.cust) == len(y.cust) && x.size == y.size &&
		nd.And(nd.Eq(x.key, y.key), nd.Eq(x.msg, y.msg), nd.Eq(x.cust, y.cust))
	a, b := m(x), m(y)
	if len(a) != len(b) {
		nd.Stop()
	}
	eq := nd.Eq(a, b)
	if same {
		nd.Reach("same")
		nd.Assert(eq, "the MAC is a function of its inputs")
	} else {
		nd.Reach("different")
		nd.Assert(!eq, "different inputs have different MACs")
	}
}

//prop: C15
// The key derivation is KMAC256 with the label as customization and the context as message; different keys, labels
// or contexts give different keys.
func H15KDF() {
	kik := nd.Bytes("kik", 32)
	label := nd.Bytes("label", pick("labellen", 0, 1, 5))
	ctx := nd.Bytes("ctx", pick("ctxlen", 0, 1, 3))
	size := pick("size", 16, 32, 64)
	got := crypto.KMACKDF(size, kik, label, ctx)
	ref := refKMAC(256, kik, ctx, size, label)
	nd.Reach("derived")
	nd.Assert(len(got) == size && nd.Eq(got, ref), "key derivation is KMAC256")
	switch nd.Choose("other", 3) {
	case 0:
		l2 := nd.Bytes("label2", pick("label2len", 0, 1, 5))
		if len(l2) != len(label) || !nd.Eq(l2, label) {
			nd.Assert(!nd.Eq(got, crypto.KMACKDF(size, kik, l2, ctx)), "keys for different labels differ")
		}
	case 1:
		c2 := nd.Bytes("ctx2", pick("ctx2len", 0, 1, 3))
		if len(c2) != len(ctx) || !nd.Eq(c2, ctx) {
			nd.Assert(!nd.Eq(got, crypto.KMACKDF(size, kik, label, c2)), "keys for different contexts differ")
		}
	case 2:
		k2 := nd.Bytes("kik2", 32)
		if !nd.Eq(k2, kik) {
			nd.Assert(!nd.Eq(got, crypto.KMACKDF(size, k2, label, ctx)), "keys from different master keys differ")
		}
	}
	parts := crypto.KMACKDF(size, kik, label, ctx, []byte("more"))
	whole := crypto.KMACKDF(size, kik, label, append(clone(ctx), "more"...))
	nd.Assert(nd.Eq(parts, whole), "the context may be given in parts")
}

//prop: C15
// Tags are 32 bytes, equal for equal data under equal keys and different otherwise; keys of other sizes are refused.
func H15Tagger() {
	key := nd.Bytes("key", 32)
	t, err := crypto.NewKMAC256Tagger(clone(key))
	must(err, "NewKMAC256Tagger")
	a, b := nd.Bytes("a", nd.Choose("alen", 4)), nd.Bytes("b", nd.Choose("blen", 4))
	ta, err := t.Tag(a)
	must(err, "Tag")
	tb, err := t.Tag(b)
	must(err, "Tag")
	same := len(a) == len(b) && nd.Eq(a, b)
	nd.Assert(len(ta) == 32 && len(tb) == 32, "tags have 32 bytes")
	nd.Assert(nd.Eq(ta, tb) == same, "tags are equal exactly for equal data")
	k2 := nd.Bytes("key2", 32)
	t2, err := crypto.NewKMAC256Tagger(k2)
	must(err, "NewKMAC256Tagger")
	t3, err := t2.Tag(a)
	must(err, "Tag")
	nd.Assert(nd.Eq(ta, t3) == nd.Eq(key, k2), "tags are equal exactly for equal keys")
	n := nd.Choose("keylen", 40)
	_, err = crypto.NewKMAC256Tagger(nd.Bytes("key3", n))
	nd.Assert((err == nil) == (n == 32), "tagger keys have 32 bytes")
}

//prop: C15
// The same for output sizes, keys and customization strings whose lengths in bits need more bytes.
func H15Large() {
	bits, kl, size, cl := pick("bits", 256, 128), 32, 32, 1
	switch nd.Choose("what", 3) {
	case 0:
		size = pick("size", 255, 256, 257, 8191, 8192)
	case 1:
		kl = pick("keylen", 255, 256, 8191, 8192)
	case 2:
		cl = pick("custlen", 31, 32, 255, 256, 8192)
	}
	key, msg, cust := nd.Bytes("key", kl), nd.Bytes("msg", 2), nd.Bytes("cust", cl)
	m := newMAC(bits, key, size, cust)
	nd.Assert(m.Size() == size, "the size of the MAC is the requested one")
	m.Write(msg)
	got := m.Sum(nil)
	nd.Reach("computed")
	nd.Assert(len(got) == size && nd.Eq(got, refKMAC(bits, key, msg, size, cust)), "the MAC is KMAC of SP 800-185")
}

// panics reports whether f panics.
func panics(f func()) (yes bool) {
	defer func() {
		yes = recover() != nil
	}()
	f()
	return
}

//prop: C15
// Keys below the security strength and outputs below 8 bytes are refused, for whatever content and customization;
// all others are accepted.
func H15Refused() {
	bits := pick("bits", 128, 256)
	klen := pick("keylen", 0, 1, 8, 15, 16, 17, 24, 31, 32, 33)
	size := pick("size", -1, 0, 1, 4, 7, 8, 9)
	key, cust := nd.Bytes("key", klen), nd.Bytes("cust", pick("custlen", 0, 3))
	var m hash.Hash
	refused := panics(func() { m = newMAC(bits, key, size, cust) })
	if klen < bits/8 || size < 8 {
		nd.Reach("refused")
		nd.Assert(refused || m == nil, "keys and sizes that are too small are refused")
	} else {
		nd.Reach("accepted")
		nd.Assert(!refused && m != nil && m.Size() == size && len(m.Sum(nil)) == size, "other keys and sizes are accepted")
	}
}
