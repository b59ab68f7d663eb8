package h

import (
	"time"

	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"

	"verif/nd"
	"verif/vtime"
)

const epoch = 1700000000

// later is an arbitrary moment within about 35 years before or after now.
func later() (sec int64, nsec int64) {
	d := nd.Uint64("dsec")
	nd.Assume(d < 1<<31)
	n := nd.Uint64("nsec")
	nd.Assume(n < 1000000000)
	return epoch - (1 << 30) + int64(d), int64(n)
}

//prop: C07 share=2
// A token opens to exactly its contents up to its expiry one hour after creation, and not at any later moment, also
// after a round trip through its string form.
func H07Lifetime() {
	nsec := int64(pick("nsec0", 0, 5, 123456789))
	vtime.Set(epoch, nsec)
	w := newWorld()
	pt := nd.Bytes("pt", pick("ptlen", 0, 1, 5, 16))
	want := clone(pt)
	tok, err := w.d.CreateToken(bg, pt)
	must(err, "CreateToken")
	if nd.Choose("string", 2) == 1 {
		s, err := tok.String()
		must(err, "String")
		tok, err = data.TokenFromString(s)
		must(err, "TokenFromString")
	}
	switch nd.Choose("before", 3) {
	case 1:
		w.reopen()
	case 2: // opened while it was alive
		first := tok
		first.Ciphertext, first.WrappedKey = clone(tok.Ciphertext), clone(tok.WrappedKey)
		got, err := w.d.GetTokenContents(bg, &first)
		nd.Assert(err == nil && nd.Eq(got, want), "a new token opens to its contents")
		for i := range got {
			got[i] = 0
		}
	}
	s, n := later()
	vtime.Set(s, n)
	got, err := w.d.GetTokenContents(bg, &tok)
	alive := nd.Or(s < epoch+3600, nd.And(s == epoch+3600, n <= nsec))
	if err == nil {
		nd.Reach("open")
		nd.Assert(alive, "an expired token does not open")
		nd.Assert(nd.Eq(got, want), "a token opens to its contents")
	} else {
		nd.Reach("closed")
		nd.Assert(nd.Not(alive), "a token opens until it expires")
		nd.Assert(len(got) == 0, "a token that does not open returns nothing")
	}
}

//prop: C07 share=2
// A token modified in any way does not open: fields changed by any difference or to other lengths, the expiry moved,
// fields exchanged with another token.
func H07Modified() {
	vtime.Set(epoch, 0)
	w := newWorld()
	pt := nd.Bytes("pt", pick("ptlen", 0, 3))
	tok, err := w.d.CreateToken(bg, clone(pt))
	must(err, "CreateToken")
	other, err := w.d.CreateToken(bg, nd.Bytes("other", len(pt)))
	must(err, "CreateToken")
	vtime.Set(epoch+7, 0)
	third, err := w.d.CreateToken(bg, clone(pt))
	must(err, "CreateToken")
	if nd.Choose("opened", 2) == 1 {
		got, err := w.d.GetTokenContents(bg, &tok)
		nd.Assert(err == nil && nd.Eq(got, pt), "the unmodified token opens")
	}
	m := tok
	m.Ciphertext, m.WrappedKey = clone(tok.Ciphertext), clone(tok.WrappedKey)
	switch nd.Choose("how", 8) {
	case 0:
		m.Ciphertext = tamper("ct", m.Ciphertext)
	case 1:
		m.WrappedKey = tamper("wk", m.WrappedKey)
	case 2:
		m.ExpiryTime = m.ExpiryTime.Add(time.Duration(pick("shift", 1, 1000, 1000000000, 3600000000000, -1, -1000000000)))
	case 3:
		m.ExpiryTime = time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)
	case 4:
		m.Ciphertext = other.Ciphertext
	case 5:
		m.WrappedKey = other.WrappedKey
	case 6:
		m.ExpiryTime = third.ExpiryTime
	case 7:
		m.Ciphertext, m.WrappedKey = third.Ciphertext, third.WrappedKey
	}
	got, err := w.d.GetTokenContents(bg, &m)
	nd.Reach("tried")
	nd.Assert(err != nil && len(got) == 0, "a modified token does not open")
	got, err = w.d.GetTokenContents(bg, &tok)
	nd.Assert(err == nil && nd.Eq(got, pt), "the unmodified token opens")
}

//prop: C07
// A string is accepted as a token only if it is one the library made: strings altered in one character by any
// difference do not open to anything else.
func H07String() {
	vtime.Set(epoch, 0)
	w := newWorld()
	pt := nd.Bytes("pt", 2)
	tok, err := w.d.CreateToken(bg, clone(pt))
	must(err, "CreateToken")
	s, err := tok.String()
	must(err, "String")
	b := []byte(s)
	switch nd.Choose("how", 3) {
	case 0:
		b = b[:len(b)-1-nd.Choose("cut", 4)]
	case 1:
		b = append(b, nd.Bytes("ext", 1+nd.Choose("extlen", 2))...)
	case 2:
		b = nd.Bytes("short", nd.Choose("len", 4))
	}
	t, err := data.TokenFromString(string(b))
	if err != nil {
		nd.Reach("no token")
		return
	}
	got, err := w.d.GetTokenContents(bg, &t)
	if err == nil {
		nd.Reach("opens")
		nd.Assert(nd.Eq(got, pt), "a string that opens is equivalent to the genuine token")
	}
}

//prop: C07
// Tokens carry exactly what they were given, independent of each other, and only the creator's key opens them.
func H07Foreign() {
	vtime.Set(epoch, 0)
	w := newWorld()
	a, b := nd.Bytes("a", 2), nd.Bytes("b", 2)
	ta, err := w.d.CreateToken(bg, clone(a))
	must(err, "CreateToken")
	tb, err := w.d.CreateToken(bg, clone(b))
	must(err, "CreateToken")
	ga, err := w.d.GetTokenContents(bg, &ta)
	nd.Assert(err == nil && nd.Eq(ga, a), "the first token keeps its contents")
	gb, err := w.d.GetTokenContents(bg, &tb)
	nd.Assert(err == nil && nd.Eq(gb, b), "the second token keeps its contents")
	nd.Assert(len(w.st.ops) == 0, "tokens do not touch the storage")
	k := keys()
	k.TEK = otherKey("tek", k.TEK)
	d := withKeys(w, k)
	g, err := d.GetTokenContents(bg, &ta)
	nd.Assert(err != nil && len(g) == 0, "a token made under another key does not open")
}

var _ = json.Marshal

//prop: C07
// The same for an arbitrary moment of creation.
func H07Anytime() {
	s0, n0 := later()
	vtime.Set(s0, n0)
	w := newWorld()
	pt := nd.Bytes("pt", 2)
	tok, err := w.d.CreateToken(bg, clone(pt))
	must(err, "CreateToken")
	s, n := later()
	vtime.Set(s, n)
	got, err := w.d.GetTokenContents(bg, &tok)
	alive := nd.Or(s < s0+3600, nd.And(s == s0+3600, n <= n0))
	nd.Assert(nd.And(err == nil, alive) || nd.And(err != nil, nd.Not(alive)), "a token opens exactly until one hour after its creation")
	nd.Assert(err != nil || nd.Eq(got, pt), "a token opens to its contents")
}

//prop: C07
// Larger contents.
func H07Large() {
	vtime.Set(epoch, 0)
	w := newWorld()
	pt := nd.Bytes("pt", pick("ptlen", 15, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128, 255, 256, 257, 1000, 1024, 4097, 16385, 65537))
	tok, err := w.d.CreateToken(bg, clone(pt))
	must(err, "CreateToken")
	s, err := tok.String()
	must(err, "String")
	tok, err = data.TokenFromString(s)
	must(err, "TokenFromString")
	got, err := w.d.GetTokenContents(bg, &tok)
	nd.Assert(err == nil && len(got) == len(pt) && nd.Eq(got, pt), "a token opens to its contents")
}
