// Package model contains the stand-ins for what lies below the code under test: cryptographic primitives as ideal
// objects, an in-memory bbolt and a silent zerolog. A "model:for" directive names the functions a stand-in replaces
// in symbolic runs. The functions with a capital letter are also used natively: they forward to the real
// implementation unless the replay asks for ideal primitives.
package model

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"errors"
	"hash"
	"io"
	"strconv"

	"github.com/gofrs/uuid"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/sha3"

	"verif/nd"
)

// ---- block cipher ----

type block struct{ key []byte }

//model:for crypto/aes.NewCipher
func AesNewCipher(key []byte) (cipher.Block, error) {
	if !nd.Ideal() {
		return aes.NewCipher(key)
	}
	switch len(key) {
	case 16, 24, 32:
	default:
		return nil, aes.KeySizeError(len(key))
	}
	return &block{append([]byte(nil), key...)}, nil
}

func (b *block) BlockSize() int { return 16 }

func (b *block) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, nd.AESEnc(b.key, src[:16]))
}

func (b *block) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, nd.AESDec(b.key, src[:16]))
}

// ---- AEAD ----

type sealed struct {
	key, nonce, pt, aad, ct []byte
}

var seals []*sealed

// Seals is how many encryptions happened; Reset forgets them (self-composition).
func Seals() int { return len(seals) }
func Reset()     { seals, draws = nil, nil }

type gcm struct {
	b         *block
	nonceSize int
	tagSize   int
}

//model:for crypto/cipher.NewGCM
func CipherNewGCM(b cipher.Block) (cipher.AEAD, error) {
	if !nd.Ideal() {
		return cipher.NewGCM(b)
	}
	return newGCM(b, 12, 16)
}

//model:for crypto/cipher.NewGCMWithNonceSize
func CipherNewGCMWithNonceSize(b cipher.Block, n int) (cipher.AEAD, error) {
	if !nd.Ideal() {
		return cipher.NewGCMWithNonceSize(b, n)
	}
	if n <= 0 {
		return nil, errors.New("cipher: the nonce can't have zero length")
	}
	return newGCM(b, n, 16)
}

//model:for crypto/cipher.NewGCMWithTagSize
func CipherNewGCMWithTagSize(b cipher.Block, n int) (cipher.AEAD, error) {
	if !nd.Ideal() {
		return cipher.NewGCMWithTagSize(b, n)
	}
	if n < 12 || n > 16 {
		return nil, errors.New("cipher: incorrect tag size given to GCM")
	}
	return newGCM(b, 12, n)
}

func newGCM(b cipher.Block, n, t int) (cipher.AEAD, error) {
	mb, ok := b.(*block)
	if !ok {
		nd.Unsupported("GCM over a block cipher that is not AES")
	}
	return &gcm{mb, n, t}, nil
}

func (g *gcm) NonceSize() int { return g.nonceSize }
func (g *gcm) Overhead() int  { return g.tagSize }

func extend(in []byte, n int) (head, tail []byte) {
	if total := len(in) + n; cap(in) >= total {
		head = in[:total]
	} else {
		head = make([]byte, total)
		copy(head, in)
	}
	tail = head[len(in):]
	return
}

func (g *gcm) Seal(dst, nonce, plaintext, aad []byte) []byte {
	if len(nonce) != g.nonceSize {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	var ct []byte
	for _, e := range seals {
		if len(e.nonce) != len(nonce) || len(e.key) != len(g.b.key) {
			continue
		}
		if nd.And(nd.Eq(e.key, g.b.key), nd.Eq(e.nonce, nonce)) {
			// nonce reuse: the same key stream
			if len(e.ct) == len(plaintext)+g.tagSize && nd.And(nd.Eq(e.pt, plaintext), nd.Eq(e.aad, aad)) {
				ct = append([]byte(nil), e.ct...)
				break
			}
			for i := 0; i < len(plaintext) && i < len(e.pt); i++ {
				ct = append(ct, e.ct[i]^e.pt[i]^plaintext[i])
			}
			break
		}
	}
	if len(ct) < len(plaintext) {
		ct = append(ct, nd.Fresh("f:ct", len(plaintext)-len(ct))...)
	}
	if len(ct) < len(plaintext)+g.tagSize {
		ct = append(ct, nd.Fresh("f:tag", g.tagSize)...)
	}
	seals = append(seals, &sealed{append([]byte(nil), g.b.key...), append([]byte(nil), nonce...),
		append([]byte(nil), plaintext...), append([]byte(nil), aad...), ct})
	ret, out := extend(dst, len(ct))
	copy(out, ct)
	return ret
}

var errOpen = errors.New("cipher: message authentication failed")

func (g *gcm) Open(dst, nonce, ciphertext, aad []byte) ([]byte, error) {
	if len(nonce) != g.nonceSize {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	if len(ciphertext) < g.tagSize {
		return nil, errOpen
	}
	for _, e := range seals {
		if len(e.ct) != len(ciphertext) || len(e.nonce) != len(nonce) || len(e.aad) != len(aad) || len(e.key) != len(g.b.key) {
			continue
		}
		if nd.And(nd.Eq(e.key, g.b.key), nd.Eq(e.nonce, nonce), nd.Eq(e.aad, aad), nd.Eq(e.ct, ciphertext)) {
			ret, out := extend(dst, len(e.pt))
			copy(out, e.pt)
			return ret, nil
		}
	}
	_, out := extend(dst, len(ciphertext)-g.tagSize)
	for i := range out {
		out[i] = 0
	}
	return nil, errOpen
}

// ---- hashes ----

type shake struct {
	dom  string
	init []byte
	buf  []byte
	off  int
	rate int
}

func newShake(dom string, init []byte, rate int) *shake {
	return &shake{dom: dom, init: init, buf: append([]byte(nil), init...), rate: rate}
}

func be8(n int) []byte {
	return []byte{byte(n >> 56), byte(n >> 48), byte(n >> 40), byte(n >> 32), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func cshake(bits string, n, s []byte, rate int) sha3.ShakeHash {
	var init []byte
	init = append(init, be8(len(s))...)
	init = append(init, s...)
	if string(n) == "KMAC" {
		return newShake("kmac"+bits, init, rate)
	}
	init = append(init, be8(len(n))...)
	init = append(init, n...)
	return newShake("pub:cshake"+bits, init, rate)
}

//model:for golang.org/x/crypto/sha3.NewCShake128
func Sha3NewCShake128(n, s []byte) sha3.ShakeHash {
	if !nd.Ideal() {
		return sha3.NewCShake128(n, s)
	}
	if len(n) == 0 && len(s) == 0 {
		return Sha3NewShake128()
	}
	return cshake("128", n, s, 168)
}

//model:for golang.org/x/crypto/sha3.NewCShake256
func Sha3NewCShake256(n, s []byte) sha3.ShakeHash {
	if !nd.Ideal() {
		return sha3.NewCShake256(n, s)
	}
	if len(n) == 0 && len(s) == 0 {
		return Sha3NewShake256()
	}
	return cshake("256", n, s, 136)
}

//model:for golang.org/x/crypto/sha3.NewShake128
func Sha3NewShake128() sha3.ShakeHash {
	if !nd.Ideal() {
		return sha3.NewShake128()
	}
	return newShake("pub:shake128", nil, 168)
}

//model:for golang.org/x/crypto/sha3.NewShake256
func Sha3NewShake256() sha3.ShakeHash {
	if !nd.Ideal() {
		return sha3.NewShake256()
	}
	return newShake("pub:shake256", nil, 136)
}

func (s *shake) Write(p []byte) (int, error) {
	if s.off > 0 {
		panic("sha3: write to sponge after read")
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func (s *shake) Read(p []byte) (int, error) {
	d := s.dom
	if s.off > 0 {
		d += "+" + strconv.Itoa(s.off)
	}
	copy(p, nd.Hash(d, s.buf, len(p)))
	s.off += len(p)
	return len(p), nil
}

func (s *shake) Clone() sha3.ShakeHash {
	c := *s
	c.buf = append([]byte(nil), s.buf...)
	return &c
}

func (s *shake) Reset() {
	s.buf = append([]byte(nil), s.init...)
	s.off = 0
}

func (s *shake) BlockSize() int { return s.rate }

type fixed struct {
	dom  string
	n    int
	rate int
	buf  []byte
}

func (h *fixed) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *fixed) Sum(b []byte) []byte { return append(b, nd.Hash(h.dom, h.buf, h.n)...) }
func (h *fixed) Reset()              { h.buf = nil }
func (h *fixed) Size() int           { return h.n }
func (h *fixed) BlockSize() int      { return h.rate }

//model:for golang.org/x/crypto/sha3.New256
func Sha3New256() hash.Hash {
	if !nd.Ideal() {
		return sha3.New256()
	}
	return &fixed{dom: "pub:sha3-256", n: 32, rate: 136}
}

//model:for golang.org/x/crypto/sha3.New512
func Sha3New512() hash.Hash {
	if !nd.Ideal() {
		return sha3.New512()
	}
	return &fixed{dom: "pub:sha3-512", n: 64, rate: 72}
}

//model:for golang.org/x/crypto/sha3.Sum256
func Sha3Sum256(data []byte) (out [32]byte) {
	if !nd.Ideal() {
		return sha3.Sum256(data)
	}
	copy(out[:], nd.Hash("pub:sha3-256", data, 32))
	return
}

//model:for golang.org/x/crypto/pbkdf2.Key
func Pbkdf2Key(password, salt []byte, iter, keyLen int, h func() hash.Hash) []byte {
	if !nd.Ideal() {
		return pbkdf2.Key(password, salt, iter, keyLen, h)
	}
	hh := h()
	// HMAC keys longer than the block are hashed, shorter ones are padded with zeros: the password is significant
	// up to trailing zero bytes
	in := append(be8(len(salt)), salt...)
	in = append(in, password...)
	if len(password) < hh.BlockSize() {
		in = append(in, make([]byte, hh.BlockSize()-len(password))...)
	}
	return nd.Hash("pbkdf2-"+strconv.Itoa(iter)+"-"+strconv.Itoa(hh.Size()), in, keyLen)
}

// ---- randomness ----

// RandRead and RandReader stand for crypto/rand.
func RandRead(b []byte) (int, error) {
	if !nd.Ideal() {
		n, err := rand.Read(b)
		draws = append(draws, append([]byte(nil), b...))
		return n, err
	}
	copy(b, nd.Fresh("f:rand", len(b)))
	draws = append(draws, append([]byte(nil), b...))
	return len(b), nil
}

var draws [][]byte

// Draws is the randomness read so far.
func Draws() [][]byte { return draws }

type reader struct{}

func (reader) Read(b []byte) (int, error) { return RandRead(b) }

var RandReader io.Reader = reader{}

//model:for github.com/gofrs/uuid.NewV4 (*github.com/gofrs/uuid.rfc4122Generator).NewV4 (*github.com/gofrs/uuid.Gen).NewV4
func UuidNewV4() (uuid.UUID, error) {
	if uuidLeft == 0 {
		return uuid.Nil, ErrEntropy
	}
	if uuidLeft > 0 {
		uuidLeft--
	}
	if !nd.Ideal() {
		return uuid.NewV4()
	}
	b := nd.Fresh("f:uuid", 15)
	var u uuid.UUID
	copy(u[:6], b[:6])
	u[6] = 0x40 | b[14]>>4
	u[7] = b[6]
	u[8] = 0x80 | b[14]&15
	copy(u[9:], b[7:14])
	return u, nil
}

// ErrEntropy is what making an identifier fails with once FailIDs has been called and n more have been made.
var ErrEntropy = errors.New("model: no entropy")

var uuidLeft = -1

func FailIDs(n int) { uuidLeft = n }
