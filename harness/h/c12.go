package h

import (
	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/crypto"
	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/nd"
)

//prop: C12
// Two runs that differ only in keywords (equal where the others are equal) and identifiers of the same sizes send the
// storage exactly the same bytes over the same randomness.
func H12Independent() {
	type secrets struct{ k1, k2, i1, i2 string }
	kl := pick("klen", 1, 4)
	il := pick("ilen", 0, 3)
	var s [2]secrets
	for r := range s {
		s[r] = secrets{nd.String("k1", kl), nd.String("k2", kl), plain("i1", il), plain("i2", il)}
		nd.Assume(!nd.EqStr(s[r].k1, s[r].k2))
		if il > 0 {
			nd.Assume(!nd.EqStr(s[r].i1, s[r].i2))
		}
	}
	script := nd.Choose("script", 4)
	a, b := twice(func(r int) *store {
		v := s[r]
		x := newIx()
		x.add(v.k1, v.i1)
		x.add(v.k2, v.i1)
		x.add(v.k1, v.i2)
		switch script {
		case 1:
			x.search(v.k1)
		case 2:
			x.del(v.k1, v.i1)
		case 3:
			x.del(v.k2, v.i1)
			x.add(v.k2, v.i2)
		}
		return x.st
	})
	nd.Reach("compared")
	nd.Assert(sameOps(a.ops, b.ops), "what the storage sees does not depend on keywords or identifiers")
}

//prop: C12
// Without a search, entries of one keyword cannot be told from entries of several: the labels and contents sent for
// them are the same random-looking values.
func H12Unlinkable() {
	same := [2]bool{true, false}
	a, b := twice(func(r int) *store {
		x := newIx()
		// the second addition goes to another keyword in the second run; only the look-ups differ
		x.add("w0", "id")
		x.st.ops = nil
		if same[r] {
			x.add("w0", "id")
		} else {
			x.add("w1", "id")
		}
		return x.st
	})
	pa, pb := a.ops[len(a.ops)-1], b.ops[len(b.ops)-1]
	nd.Reach("compared")
	nd.Assert(pa.kind == "put" && pb.kind == "put" && len(pa.id) == len(pb.id) && len(pa.data) == len(pb.data), "entries of one keyword look like entries of several")
	if pa.dt != io.DataTypeSealedNode {
		nd.Reach("dt")
	}
}

// attack lets the storage answer with something else for one of its index records; raw is any earlier state.
func (x *ix) attack(old []rec) {
	n := len(x.st.recs)
	i := nd.Choose("at", n)
	switch nd.Choose("attack", 5) {
	case 0: // another record's contents
		j := nd.Choose("from", n)
		if i == j {
			nd.Stop()
		}
		x.st.recs[i].data = clone(x.st.recs[j].data)
	case 1: // exchange
		j := nd.Choose("from", n)
		if i >= j {
			nd.Stop()
		}
		x.st.recs[i].data, x.st.recs[j].data = x.st.recs[j].data, x.st.recs[i].data
	case 2: // an earlier version, anywhere
		if len(old) == 0 {
			nd.Stop()
		}
		x.st.recs[i].data = clone(old[nd.Choose("old", len(old))].data)
	case 3:
		var s data.SealedNode
		must(json.Unmarshal(x.st.recs[i].data, &s), "reading the stored node")
		if nd.Choose("field", 2) == 0 {
			s.Ciphertext = tamper("ct", s.Ciphertext)
		} else {
			s.WrappedKey = tamper("wk", s.WrappedKey)
		}
		b, err := json.Marshal(&s)
		must(err, "writing the stored node")
		x.st.recs[i].data = b
	case 4: // parts of two records
		j := nd.Choose("from", n)
		if i == j {
			nd.Stop()
		}
		var s, t data.SealedNode
		must(json.Unmarshal(x.st.recs[i].data, &s), "reading the stored node")
		must(json.Unmarshal(x.st.recs[j].data, &t), "reading the stored node")
		if nd.Choose("part", 2) == 0 {
			s.Ciphertext = t.Ciphertext
		} else {
			s.WrappedKey = t.WrappedKey
		}
		b, err := json.Marshal(&s)
		must(err, "writing the stored node")
		x.st.recs[i].data = b
	}
}

//prop: C12 share=2
// Whatever the storage does to one of the stored entries (changes, exchanges, replays, mixes), a search returns an
// error or identifiers that were added under the keyword searched for, and it ends.
func H12Tampered() {
	x := newIx()
	x.add("w", "w-one")
	x.add("w", "w-two")
	old := x.st.snapshot()
	x.add("v", "v-one")
	var gone bool
	if nd.Choose("deleted", 2) == 1 {
		x.del("w", "w-one")
		x.add("w", "w-three")
		gone = true
	} else {
		old = nil
	}
	x.attack(old)
	added := []string{"w-one", "w-two"}
	if gone {
		added = append(added, "w-three")
	}
	switch nd.Choose("op", 3) {
	case 1:
		_ = x.x.Delete(bg, "t", "w", "w-two")
	case 2:
		_ = x.x.Add(bg, "t", "w", "w-four")
		added = append(added, "w-four")
	}
	r, err := x.x.Search(bg, "t", "w")
	if err != nil {
		nd.Reach("error")
		nd.Assert(len(r) == 0, "a failed search returns nothing")
	} else {
		nd.Reach("answer")
	}
	for i, s := range r {
		nd.Assert(member(added, s), "a search returns only identifiers added under the keyword")
		nd.Assert(!member(r[:i], s), "a search returns no identifier more often than it was added")
	}
	r, err = x.x.Search(bg, "t", "v")
	for _, s := range r {
		nd.Assert(err == nil && s == "v-one", "a search returns only identifiers added under the keyword")
	}
}

//prop: C12
// The storage adds records of its own (entries of another key, of other types, arbitrary bytes) under the next label:
// they never become entries.
func H12Foreign() {
	x := newIx()
	x.add("w", "one")
	x.add("w", "two")
	lab := clone(x.st.recs[1].id)
	x.del("w", "two")
	var raw []byte
	switch nd.Choose("how", 3) {
	case 0:
		raw = nd.Bytes("raw", nd.Choose("len", tiered(4, 6)))
	case 1:
		raw = []byte([]string{"{}", "null", "[]", `{"Ciphertext":"","WrappedKey":""}`, `{"Identifier":"x","NextCounter":9}`, `{"Ciphertext":null}`}[nd.Choose("lit", 6)])
	case 2:
		w := newIx()
		w.ip.add("o", ident("o", scopeAll))
		w.add("v", "two")
		raw = clone(w.st.recs[0].data)
	}
	x.st.recs = append(x.st.recs, rec{lab, io.DataTypeSealedNode, raw})
	r, err := x.x.Search(bg, "t", "w")
	nd.Reach("searched")
	nd.Assert(err != nil && len(r) == 0, "a foreign record is an error, not an entry")
}

//prop: C12
// The label of the next entry is a function of the counter, and two counters have different labels (tags ideal), for
// every pair of 64-bit counters.
func H12Labels() {
	t, err := crypto.NewKMAC256Tagger(keyOf(4))
	must(err, "NewKMAC256Tagger")
	a, b := nd.Uint64("a"), nd.Uint64("b")
	x, y := data.Node{Identifier: "x", NextCounter: a}, data.Node{Identifier: "y", NextCounter: b}
	p, err := x.NextLabel(&t)
	must(err, "NextLabel")
	q, err := y.NextLabel(&t)
	must(err, "NextLabel")
	nd.Reach("labels")
	nd.Assert(len(p) == len(q) && nd.Eq(p, q) == (a == b), "labels are equal exactly for equal counters")
	nd.Assert(x.NextCounter == a && y.NextCounter == b, "computing a label leaves the node alone")
}
