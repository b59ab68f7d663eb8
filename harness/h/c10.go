package h

import (
	"unicode/utf8"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/nd"
)

// ix is a searchable index over a store.
type ix struct {
	x  index.SecureIndex
	st *store
	ip *idp
}

func newIx() *ix {
	i := &ix{st: newStore(), ip: &idp{}}
	i.ip.add("t", ident("u", id.ScopeIndex))
	i.reopen()
	return i
}

func (i *ix) reopen() {
	x, err := index.NewSecureIndex(bg, keyProvider(), i.st, i.ip)
	must(err, "creating the index")
	i.x = x
}

func (i *ix) add(kw, ident string) { must(i.x.Add(bg, "t", kw, ident), "Add") }
func (i *ix) del(kw, ident string) { must(i.x.Delete(bg, "t", kw, ident), "Delete") }
func (i *ix) search(kw string) []string {
	r, err := i.x.Search(bg, "t", kw)
	must(err, "Search")
	return r
}

// without removes every occurrence.
func without(list []string, s string) []string {
	var out []string
	for _, x := range list {
		if !nd.EqStr(x, s) {
			out = append(out, x)
		}
	}
	return out
}

// bagEq compares as multisets.
func bagEq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		n, m := 0, 0
		for _, y := range a {
			if y == x {
				n++
			}
		}
		for _, y := range b {
			if y == x {
				m++
			}
		}
		if n != m {
			return false
		}
	}
	return true
}

//prop: C10 share=3
// Any history of additions and deletions over two keywords and two identifiers: a search returns exactly what was
// added and not deleted since, as often as it was added.
func H10History() {
	x := newIx()
	kw := []string{"alpha", "beta"}
	ids := []string{"id0", "id1"}
	live := [2][]string{}
	n := tiered(4, 6)
	for k := 0; k < n; k++ {
		w, i, add := 0, 0, true
		if k > 0 {
			w, i, add = nd.Choose("kw", 2), nd.Choose("id", 2), nd.Choose("op", 2) == 0
		}
		if add {
			x.add(kw[w], ids[i])
			live[w] = append(live[w], ids[i])
		} else {
			x.del(kw[w], ids[i])
			live[w] = without(live[w], ids[i])
		}
	}
	if nd.Choose("reopen", 2) == 1 {
		x.reopen()
	}
	for w := range kw {
		nd.Assert(bagEq(x.search(kw[w]), live[w]), "a search returns exactly the live identifiers of the keyword")
	}
}

//prop: C10
// A chain of entries, of which any are deleted, in any order, and more added: nothing else is lost or comes back.
func H10Chain() {
	x := newIx()
	names := []string{"a", "b", "c", "d", "e", "f"}
	n := tiered(4, 5)
	var live []string
	for i := 0; i < n; i++ {
		x.add("w", names[i])
		live = append(live, names[i])
	}
	for k := 0; k < tiered(3, 4); k++ {
		i := nd.Choose("victim", n)
		x.del("w", names[i])
		live = without(live, names[i])
		nd.Assert(bagEq(x.search("w"), live), "deleting an entry removes that entry only")
	}
	x.add("w", "f")
	live = append(live, "f")
	nd.Reach("readded")
	nd.Assert(bagEq(x.search("w"), live), "an entry added after deletions is found")
	x.add("w", names[0])
	live = append(live, names[0])
	nd.Assert(bagEq(x.search("w"), live), "an entry added after deletions is found")
}

//prop: C10
// Duplicate entries anywhere in a chain: deleting an identifier deletes all of its entries and no others.
func H10Duplicates() {
	x := newIx()
	var live []string
	n := tiered(5, 6)
	for i := 0; i < n; i++ {
		s := []string{"a", "b"}[nd.Choose("id", 2)]
		x.add("w", s)
		live = append(live, s)
	}
	nd.Assert(bagEq(x.search("w"), live), "duplicates are returned as often as they were added")
	x.del("w", "a")
	live = without(live, "a")
	nd.Assert(bagEq(x.search("w"), live), "deleting an identifier deletes all of its entries and no others")
	x.add("w", "a")
	live = append(live, "a")
	nd.Assert(bagEq(x.search("w"), live), "an identifier can be added again after it was deleted")
}

//prop: C10
// Keywords are compared by their bytes: a search finds an entry exactly under the keyword it was added under, for
// any two keywords.
func H10Keywords() {
	x := newIx()
	a := nd.String("a", nd.Choose("alen", tiered(4, 6)))
	b := nd.String("b", nd.Choose("blen", tiered(4, 6)))
	x.add(a, "one")
	same := len(a) == len(b) && nd.EqStr(a, b)
	r := x.search(b)
	if same {
		nd.Reach("same")
		nd.Assert(bagEq(r, []string{"one"}), "an entry is found under its keyword")
	} else {
		nd.Reach("different")
		nd.Assert(len(r) == 0, "an entry is not found under another keyword")
	}
	x.del(b, "one")
	nd.Assert((len(x.search(a)) == 0) == same, "deleting under one keyword does not affect another")
}

//prop: C10
// Identifiers of arbitrary bytes are returned as they were added, and deleting one deletes exactly the equal ones.
func H10Identifiers() {
	x := newIx()
	a := nd.String("a", nd.Choose("alen", tiered(2, 3)))
	known := !utf8.ValidString(a)
	x.add("w", a)
	r := x.search("w")
	nd.Reach("added")
	nd.Known("invalid-utf8-identifiers", len(r) == 1 && nd.EqStr(r[0], a), known, "an identifier is returned as it was added")
	x.del("w", a)
	nd.Known("invalid-utf8-identifiers", len(x.search("w")) == 0, known, "a deleted identifier is gone")
}

//prop: C10
// Deleting compares whole identifiers.
func H10Similar() {
	x := newIx()
	a, b := plain("a", nd.Choose("alen", tiered(3, 4))), plain("b", nd.Choose("blen", tiered(3, 4)))
	x.add("w", a)
	x.add("w", b)
	x.del("w", b)
	r := x.search("w")
	if len(a) == len(b) && nd.EqStr(a, b) {
		nd.Reach("same")
		nd.Assert(len(r) == 0, "deleting an identifier deletes all of its entries")
	} else {
		nd.Reach("different")
		nd.Assert(len(r) == 1 && nd.EqStr(r[0], a), "deleting an identifier deletes no other identifier")
	}
}

//prop: C10
// Two positions of a chain never share a label, for any two 64-bit counters and any key.
func H10Labels() {
	key := nd.Bytes("key", 32)
	a, b := nd.Uint64("a"), nd.Uint64("b")
	nd.Assume(a != b)
	t, err := crypto.NewKMAC256Tagger(key)
	must(err, "NewKMAC256Tagger")
	na, nb := data.Node{NextCounter: a}, data.Node{NextCounter: b}
	la, err := na.NextLabel(&t)
	must(err, "NextLabel")
	lb, err := nb.NextLabel(&t)
	must(err, "NextLabel")
	nd.Reach("labels")
	nd.Assert(len(la) >= 16 && len(lb) == len(la) && !nd.Eq(la, lb), "different positions have different labels")
	lc, err := na.NextLabel(&t)
	must(err, "NextLabel")
	nd.Assert(nd.Eq(la, lc), "a position has one label")
}

//prop: C10
// A long chain, beyond the sizes at which counters and buffers change: all entries are found, those deleted
// (everywhere in the chain) are not, and more can be added.
func H10Long() {
	nd.Opt("long")
	x := newIx()
	n := tiered(40, 140)
	var live []string
	name := func(i int) string { return "id" + string(rune('a'+i/26)) + string(rune('a'+i%26)) }
	for i := 0; i < n; i++ {
		x.add("w", name(i))
		live = append(live, name(i))
	}
	nd.Assert(bagEq(x.search("w"), live), "a search returns all of a long chain")
	d := []int{0, n - 1, n / 2, 32}[nd.Choose("victim", 4)]
	x.del("w", name(d))
	live = without(live, name(d))
	x.add("w", "last")
	live = append(live, "last")
	nd.Assert(bagEq(x.search("w"), live), "a long chain loses what is deleted and nothing else")
}

//prop: C10
// Long keywords and identifiers are compared by all of their bytes.
func H10Names() {
	x := newIx()
	n := pick("len", 31, 32, 33, 64, 65, 127, 128, 129, 136, 137, 255, 256, 257, 300)
	a := long("a", n)
	b := long("b", n)
	if nd.Choose("shorter", 2) == 1 {
		b = a[:n-1]
	}
	same := len(a) == len(b) && nd.EqStr(a, b)
	if nd.Choose("which", 2) == 0 {
		x.add(a, "one")
		x.add(b, "two")
		r := x.search(a)
		if same {
			nd.Reach("same")
			nd.Assert(bagEq(r, []string{"one", "two"}), "entries are found under their keyword")
		} else {
			nd.Reach("different")
			nd.Assert(bagEq(r, []string{"one"}), "entries are found under their keyword only")
		}
	} else {
		x.add("w", a)
		x.add("w", b)
		nd.Assert(bagEq(x.search("w"), []string{a, b}), "identifiers are returned as they were added")
		x.del("w", b)
		if same {
			nd.Assert(len(x.search("w")) == 0, "deleting an identifier deletes all of its entries")
		} else {
			nd.Assert(bagEq(x.search("w"), []string{a}), "deleting an identifier leaves others")
		}
	}
}

//prop: C10
// Two instances over one storage, used in turns: each finds at once what the other added and not what it deleted.
func H10Instances() {
	x := newIx()
	y := &ix{st: x.st, ip: x.ip}
	y.reopen()
	xs := [2]*ix{x, y}
	ids := []string{"id0", "id1"}
	var live []string
	n := tiered(4, 5)
	for k := 0; k < n; k++ {
		x, i, op := xs[0], 0, 0
		if k > 0 {
			x, i, op = xs[nd.Choose("instance", 2)], nd.Choose("id", 2), nd.Choose("op", 3)
		}
		switch op {
		case 0:
			x.add("alpha", ids[i])
			live = append(live, ids[i])
		case 1:
			x.del("alpha", ids[i])
			live = without(live, ids[i])
		case 2:
			if i == 1 {
				nd.Stop()
			}
			nd.Assert(bagEq(x.search("alpha"), live), "a search returns exactly the live identifiers, whichever instance added or deleted")
		}
	}
	nd.Assert(bagEq(xs[nd.Choose("at last", 2)].search("alpha"), live), "a search returns exactly the live identifiers, whichever instance added or deleted")
}

//prop: C10
// A very long chain, written in the format of the index: all of it is found, and operations at its end and in its
// middle affect what they should and nothing else.
func H10Deep() {
	nd.Opt("long")
	x := newIx()
	n := pick("entries", 130, tiered(260, 1030))
	op := nd.Choose("op", 3)
	if n > 260 && op != 0 || n > 130 && op == 2 {
		nd.Stop()
	}
	tk, ek := refKMAC(256, keys().IEK, []byte("w"), 32, []byte("label")), refKMAC(256, keys().IEK, []byte("w"), 32, []byte("id"))
	var live []string
	for k := 0; k < n; k++ {
		l := refKMAC(256, tk, nil, 32, text(varint(k)))
		wk, ct := boxWith(nd.Fresh("f:dek", 32), nd.Fresh("f:nonce", 12), ek, refNode{nth("i", k), uint64(k) + 1}, l)
		must(x.st.Put(bg, l, io.DataTypeSealedNode, text(twoFields{ct, wk})), "Put")
		live = append(live, nth("i", k))
	}
	switch op {
	case 0:
		nd.Assert(sameNames(x.search("w"), live), "a search returns all of a long chain")
	case 1:
		x.add("w", "more")
		nd.Assert(sameNames(x.search("w"), append(live, "more")), "an entry can be added to a long chain")
	case 2:
		d := pick("which", 0, 126, 127, n-1)
		x.del("w", live[d])
		nd.Assert(sameNames(x.search("w"), without(live, live[d])), "a long chain loses what is deleted and nothing else")
	}
}

func varint(k int) []byte {
	var b []byte
	for ; k >= 0x80; k >>= 7 {
		b = append(b, byte(k)|0x80)
	}
	return append(b, byte(k))
}

// sameNames compares lists of distinct strings as sets.
func sameNames(got, want []string) bool {
	m := map[string]bool{}
	for _, s := range got {
		m[s] = true
	}
	ok := len(got) == len(want) && len(m) == len(want)
	for _, s := range want {
		ok = ok && m[s]
	}
	return ok
}
