package h

import (
	"github.com/cybercryptio/d1-lib/v2/crypto"

	"verif/model"
	"verif/nd"
)

// refBlocks is the number of 8-byte semi-blocks behind the first one for n bytes of key data.
func refBlocks(n int) int { return (n + 7) / 8 }

func xorT(a []byte, t int) {
	for i := 7; i >= 0; i-- {
		a[i] ^= byte(t)
		t >>= 8
	}
}

// refWrap is AES-KWP (RFC 5649 with more than one semi-block) written from the specification.
func refWrap(kek, pt []byte) []byte {
	c, err := model.AesNewCipher(kek)
	must(err, "the reference cipher")
	n := refBlocks(len(pt))
	a := []byte{0xa6, 0x59, 0x59, 0xa6, byte(len(pt) >> 24), byte(len(pt) >> 16), byte(len(pt) >> 8), byte(len(pt))}
	r := make([][]byte, n+1)
	for i := 1; i <= n; i++ {
		r[i] = make([]byte, 8)
		for j := 0; j < 8 && 8*(i-1)+j < len(pt); j++ {
			r[i][j] = pt[8*(i-1)+j]
		}
	}
	for j := 0; j <= 5; j++ {
		for i := 1; i <= n; i++ {
			b := make([]byte, 16)
			c.Encrypt(b, append(clone(a), r[i]...))
			a = clone(b[:8])
			xorT(a, n*j+i)
			r[i] = clone(b[8:])
		}
	}
	out := clone(a)
	for i := 1; i <= n; i++ {
		out = append(out, r[i]...)
	}
	return out
}

// refUnwrap inverts W; the caller checks the first semi-block and the padding.
func refUnwrap(kek, ct []byte) []byte {
	c, err := model.AesNewCipher(kek)
	must(err, "the reference cipher")
	n := len(ct)/8 - 1
	a := clone(ct[:8])
	r := make([][]byte, n+1)
	for i := 1; i <= n; i++ {
		r[i] = clone(ct[8*i : 8*i+8])
	}
	for j := 5; j >= 0; j-- {
		for i := n; i >= 1; i-- {
			x := clone(a)
			xorT(x, n*j+i)
			b := make([]byte, 16)
			c.Decrypt(b, append(x, r[i]...))
			a = clone(b[:8])
			r[i] = clone(b[8:])
		}
	}
	out := clone(a)
	for i := 1; i <= n; i++ {
		out = append(out, r[i]...)
	}
	return out
}

func kwp(kek []byte) *crypto.KWP {
	k, err := crypto.NewKWP(kek)
	must(err, "NewKWP")
	return k
}

//prop: C13
// Wrapping any key of any permitted size under any key gives the AES-KWP ciphertext of the standard, and unwrapping
// gives the key back. AES is an arbitrary permutation.
func H13Wrap() {
	nd.Opt("aesuf")
	kek := nd.Bytes("kek", pick("keklen", 16, 32))
	n := 16 + nd.Choose("len", tiered(18, 50))
	pt := nd.Bytes("pt", n)
	in := clone(pt)
	w, err := kwp(kek).Wrap(in)
	must(err, "Wrap")
	nd.Reach("wrapped")
	ref := refWrap(kek, pt)
	nd.Assert(len(w) == len(ref) && nd.Eq(w, ref), "wrapping follows RFC 5649")
	nd.Assert(nd.Eq(in, pt), "wrapping leaves its input alone")
	cp := clone(w)
	u, err := kwp(kek).Unwrap(w)
	nd.Assert(err == nil && len(u) == len(pt) && nd.Eq(u, pt), "unwrapping returns the key that was wrapped")
	nd.Assert(nd.Eq(w, cp), "unwrapping leaves its input alone")
}

//prop: C13 share=2
// Unwrapping arbitrary bytes under any key: accepted exactly when the standard accepts them (integrity value, length
// and zero padding), and then the result is the standard's.
func H13Unwrap() {
	nd.Opt("aesuf")
	kek := nd.Bytes("kek", pick("keklen", 16, 32))
	n := 24 + 8*nd.Choose("blocks", tiered(3, 6))
	ct := nd.Bytes("ct", n)
	got, err := kwp(kek).Unwrap(clone(ct))
	ref := refUnwrap(kek, ct)
	aiv := ref[0] == 0xa6 && ref[1] == 0x59 && ref[2] == 0x59 && ref[3] == 0xa6
	valid := false
	size := 0
	if aiv {
		// the length says how many of the last 8 bytes are padding
		for pad := 0; pad < 8; pad++ {
			m := n - 8 - pad
			ok := ref[4] == byte(m>>24) && ref[5] == byte(m>>16) && ref[6] == byte(m>>8) && ref[7] == byte(m)
			if !ok {
				continue
			}
			zero := make([]byte, pad)
			valid, size = nd.Eq(ref[n-pad:], zero), m
		}
	}
	nd.Assert((err == nil) == valid, "unwrapping accepts exactly what the standard accepts")
	if err == nil {
		nd.Reach("accepted")
		nd.Assert(len(got) == size && nd.Eq(got, ref[8:8+size]), "unwrapping returns the standard's result")
	} else {
		nd.Reach("rejected")
		nd.Assert(len(got) == 0, "a rejected key is not returned")
	}
}

//prop: C13
// Sizes outside the documented range are refused, for the wrapping key, the key to wrap and the wrapped key.
func H13Sizes() {
	nd.Opt("aesuf")
	switch nd.Choose("what", 3) {
	case 0:
		n := nd.Choose("len", 41)
		k, err := crypto.NewKWP(nd.Bytes("kek", n))
		ok := n == 16 || n == 32
		nd.Assert((err == nil) == ok && (k != nil) == ok, "wrapping keys have 16 or 32 bytes")
	case 1:
		n := pick("len", 0, 1, 7, 8, 9, 15, 8193, 8200)
		in := make([]byte, n)
		copy(in, nd.Bytes("pt", min(n, 16)))
		w, err := kwp(keyOf(1)).Wrap(in)
		nd.Assert(err != nil && len(w) == 0, "keys that are too short or too long are not wrapped")
	case 2:
		n := pick("len", 0, 1, 8, 15, 16, 17, 23, 25, 28, 31, 33, 39, 41, 47, 49, 8208)
		in := make([]byte, n)
		copy(in, nd.Bytes("ct", min(n, 49)))
		w, err := kwp(keyOf(1)).Unwrap(in)
		nd.Assert(err != nil && len(w) == 0, "wrapped keys of impossible sizes are rejected")
	}
}

//prop: C13
// A wrapped key is bound to its wrapping key and to every one of its bits (AES ideal: fresh values for fresh inputs).
func H13Bound() {
	kek := nd.Bytes("kek", 32)
	pt := nd.Bytes("pt", pick("len", 16, 17, 32))
	w, err := kwp(kek).Wrap(clone(pt))
	must(err, "Wrap")
	switch nd.Choose("how", 2) {
	case 0:
		w = tamper("w", w)
		u, err := kwp(kek).Unwrap(w)
		nd.Reach("modified")
		nd.Assert(err != nil && len(u) == 0, "a modified wrapped key is rejected")
	case 1:
		d := nd.Bytes("d", 32)
		nd.Assume(!nd.Eq(d, make([]byte, 32)))
		k2 := clone(kek)
		for i := range k2 {
			k2[i] ^= d[i]
		}
		u, err := kwp(k2).Unwrap(w)
		nd.Reach("other key")
		nd.Assert(err != nil && len(u) == 0, "another key does not unwrap")
	}
}

//prop: C13
// The same for longer keys, where the step counter needs more bytes, up to the largest size permitted.
func H13Large() {
	nd.Opt("aesuf")
	sizes := []int{336, 341, 344, 345, 512, 1024, 2048, 2049, 4096, 8185, 8191, 8192}
	if nd.Tier() == 1 {
		sizes = append(sizes, 3000, 5001, 8184, 8186)
	}
	kek, pt := nd.Bytes("kek", 32), nd.Bytes("pt", sizes[nd.Choose("size", len(sizes))])
	w, err := kwp(kek).Wrap(clone(pt))
	ref := refWrap(kek, pt)
	must(err, "Wrap")
	nd.Assert(len(w) == len(ref) && nd.Eq(w, ref), "wrapping follows RFC 5649")
	nd.Reach("wrapped")
	u, err := kwp(kek).Unwrap(ref)
	nd.Assert(err == nil && len(u) == len(pt) && nd.Eq(u, pt), "unwrapping returns the key that was wrapped")
}

//prop: C13
// What the standard produces for keys beyond the permitted sizes is refused by unwrapping, too.
func H13Beyond() {
	kek := keyOf(byte(pick("kek", 0, 0x70)))
	pt := make([]byte, pick("size", 1, 8, 8193, 8200, 8201, 9000))
	for i := range pt {
		pt[i] = byte(i * 7)
	}
	w, err := kwp(kek).Wrap(clone(pt))
	nd.Assert(err != nil && w == nil, "keys outside the documented range are not wrapped")
	u, err := kwp(kek).Unwrap(refWrap(kek, pt))
	nd.Assert(err != nil && u == nil, "what holds a key outside the documented range is not unwrapped")
}
