package h

import (
	"errors"

	"github.com/cybercryptio/d1-lib/v2/io"

	"verif/model"
	"verif/nd"
)

// provider makes one of the library's storage providers.
func provider() io.Provider {
	switch nd.Choose("provider", 3) {
	case 0:
		m := io.NewMem()
		return &m
	case 1:
		return newBolt()
	}
	m := io.NewMem()
	p := io.NewProxy(&m)
	return &p
}

func newBolt() io.Provider {
	b, err := io.NewBolt(nd.TempDir() + "/db")
	must(err, "NewBolt")
	return &b
}

type entry struct {
	id   []byte
	dt   io.DataType
	data []byte
}

func sameKey(a entry, id []byte, dt io.DataType) bool {
	return a.dt == dt && len(a.id) == len(id) && nd.Eq(a.id, id)
}

//prop: C17 share=3
// Any history of operations over three keys (two types under one identifier, two identifiers under one type): every
// operation does and returns what the contract of the providers says.
func H17History() {
	p := provider()
	ks := []entry{{id: []byte("id"), dt: 0}, {id: []byte("id"), dt: 1}, {id: []byte("iD"), dt: 0}}
	var have [3]bool
	var val [3]byte
	n := tiered(3, 4)
	if tiered(0, 1) == 0 && nd.Choose("put first", 2) == 1 {
		must(p.Put(bg, clone(ks[0].id), ks[0].dt, []byte{77, 0}), "Put")
		have[0], val[0] = true, 77
	}
	for i := 0; i < n; i++ {
		k := nd.Choose("key", 3)
		e := ks[k]
		switch nd.Choose("op", 4) {
		case 0:
			err := p.Put(bg, clone(e.id), e.dt, []byte{byte(i + 1), byte(k)})
			if have[k] {
				nd.Reach("exists")
				nd.Assert(errors.Is(err, io.ErrAlreadyExists), "putting what exists fails with ErrAlreadyExists")
			} else {
				nd.Assert(err == nil, "putting what does not exist succeeds")
				have[k], val[k] = true, byte(i+1)
			}
		case 1:
			get(p, e, have[k], val[k], byte(k))
		case 2:
			err := p.Update(bg, clone(e.id), e.dt, []byte{byte(i + 1), byte(k)})
			if have[k] {
				nd.Assert(err == nil, "updating what exists succeeds")
				val[k] = byte(i + 1)
			} else {
				nd.Reach("missing")
				nd.Assert(errors.Is(err, io.ErrNotFound), "updating what does not exist fails with ErrNotFound")
			}
		case 3:
			nd.Assert(p.Delete(bg, clone(e.id), e.dt) == nil, "deleting succeeds, whether or not the data exists")
			have[k] = false
		}
	}
	for k := range ks {
		get(p, ks[k], have[k], val[k], byte(k))
	}
}

func get(p io.Provider, e entry, have bool, v, k byte) {
	b, err := p.Get(bg, clone(e.id), e.dt)
	if have {
		nd.Assert(err == nil && len(b) == 2 && b[0] == v && b[1] == k, "getting returns the last value stored for the key")
	} else {
		nd.Assert(errors.Is(err, io.ErrNotFound) && len(b) == 0, "getting what does not exist fails with ErrNotFound")
	}
}

//prop: C17
// Keys are pairs of identifier and type: data stored under any pair is found, updated and deleted under an equal pair
// only.
func H17Keys() {
	p := provider()
	a := nd.Bytes("a", nd.Choose("alen", tiered(4, 6)))
	b := nd.Bytes("b", nd.Choose("blen", tiered(4, 6)))
	da, db := io.DataType(pick("adt", 0, 1, 2, 3, 12, 256, 65535)), io.DataType(pick("bdt", 0, 1, 2, 3, 12, 256, 65535))
	same := da == db && len(a) == len(b) && nd.Eq(a, b)
	must(p.Put(bg, clone(a), da, []byte("va")), "Put")
	switch nd.Choose("op", 4) {
	case 0:
		v, err := p.Get(bg, clone(b), db)
		nd.Assert((err == nil) == same && (err == nil || errors.Is(err, io.ErrNotFound)), "data is found exactly under its own key")
		nd.Assert(err != nil || string(v) == "va", "the data found is the data stored")
	case 1:
		err := p.Put(bg, clone(b), db, []byte("vb"))
		nd.Assert((err == nil) != same && (err == nil || errors.Is(err, io.ErrAlreadyExists)), "a key exists exactly if it was stored")
		v, err := p.Get(bg, clone(a), da)
		nd.Assert(err == nil && string(v) == "va", "storing under another key leaves the data alone")
	case 2:
		err := p.Update(bg, clone(b), db, []byte("vb"))
		nd.Assert((err == nil) == same && (err == nil || errors.Is(err, io.ErrNotFound)), "data is updated exactly under its own key")
		v, err := p.Get(bg, clone(a), da)
		nd.Assert(err == nil && (string(v) == "vb") == same && (string(v) == "va") == !same, "updating another key leaves the data alone")
	case 3:
		must(p.Delete(bg, clone(b), db), "Delete")
		v, err := p.Get(bg, clone(a), da)
		nd.Assert((err != nil) == same && (err != nil || string(v) == "va"), "deleting another key leaves the data alone")
	}
	if same {
		nd.Reach("same")
	} else {
		nd.Reach("different")
	}
}

//prop: C17
// Any contents, also none, are returned as they were stored, and the provider keeps its own copy of what it is given
// and gives out copies: later changes of the caller's slices have no effect.
func H17Values() {
	p := provider()
	id := nd.Bytes("id", nd.Choose("idlen", 3))
	n := nd.Choose("len", 4)
	v := nd.Bytes("v", n)
	in := clone(v)
	if n == 0 && nd.Choose("nil", 2) == 1 {
		in = nil
	}
	key := roomy(id, pick("spare", 0, 8))
	full := key[:cap(key)]
	for i := len(id); i < len(full); i++ {
		full[i] = 0x5a
	}
	untouched := func() {
		ok := nd.Eq(full[:len(id)], id)
		for i := len(id); i < len(full); i++ {
			ok = nd.And(ok, full[i] == 0x5a)
		}
		nd.Assert(ok, "the memory behind the caller's identifier is left alone")
	}
	if nd.Choose("how", 2) == 0 {
		must(p.Put(bg, key, 1, in), "Put")
	} else {
		must(p.Put(bg, key, 1, []byte("before")), "Put")
		untouched()
		must(p.Update(bg, key, 1, in), "Update")
	}
	untouched()
	nd.Assert(len(in) == n && nd.Eq(in, v), "the caller's data is left alone")
	for i := range in {
		in[i] ^= 0xff
	}
	for k := 0; k < 2; k++ {
		got, err := p.Get(bg, key, 1)
		untouched()
		nd.Reach("got")
		nd.Assert(err == nil && len(got) == n && nd.Eq(got, v), "the data is returned as it was stored")
		for i := range got {
			got[i] ^= 0xff
		}
	}
	nd.Assert(errors.Is(p.Put(bg, key, 1, []byte("x")), io.ErrAlreadyExists), "stored data exists, also if it is empty")
	must(p.Delete(bg, key, 1), "Delete")
	untouched()
	_, err := p.Get(bg, key, 1)
	nd.Assert(errors.Is(err, io.ErrNotFound), "deleted data does not exist")
}

//prop: C17
// What was returned stays as it is, whatever happens to the store afterwards.
func H17Stable() {
	p := provider()
	must(p.Put(bg, []byte("id"), 0, []byte("first value")), "Put")
	must(p.Put(bg, []byte("other"), 0, []byte("other value")), "Put")
	// so much that bbolt gives the bucket pages of its own, which it reuses
	must(p.Put(bg, []byte("padding"), 0, make([]byte, 2000)), "Put")
	got, err := p.Get(bg, []byte("id"), 0)
	must(err, "Get")
	switch nd.Choose("then", 3) {
	case 0:
		for i := 0; i < 6; i++ {
			must(p.Update(bg, []byte("id"), 0, []byte("other value")), "Update")
		}
	case 1:
		must(p.Delete(bg, []byte("id"), 0), "Delete")
		for i := 0; i < 6; i++ {
			must(p.Put(bg, []byte{'i', byte(i)}, 0, []byte("more  value")), "Put")
		}
	case 2:
		for i := 0; i < 6; i++ {
			must(p.Update(bg, []byte("other"), 0, []byte("third value")), "Update")
		}
	}
	nd.Reach("compared")
	nd.Assert(string(got) == "first value", "what was returned stays as it is")
}

//prop: C17
// The types of d1-lib have their own keys: the same identifier can be used for each of them.
func H17Types() {
	p := provider()
	ts := []io.DataType{io.DataTypeSealedObject, io.DataTypeSealedAccess, io.DataTypeSealedNode, io.DataTypeEnd, io.DataTypeEnd + 1, io.DataTypeEnd + 100}
	id := nd.Bytes("id", nd.Choose("idlen", 3))
	for i, t := range ts {
		must(p.Put(bg, clone(id), t, []byte{byte(i)}), "Put")
	}
	d := nd.Choose("delete", len(ts))
	must(p.Delete(bg, clone(id), ts[d]), "Delete")
	for i, t := range ts {
		v, err := p.Get(bg, clone(id), t)
		if i == d {
			nd.Assert(errors.Is(err, io.ErrNotFound), "deleted data does not exist")
		} else {
			nd.Assert(err == nil && len(v) == 1 && v[0] == byte(i), "types do not share keys")
		}
	}
}

//prop: C17
// Two stores are independent of each other.
func H17Separate() {
	p, q := provider(), provider()
	must(p.Put(bg, []byte("id"), 0, []byte("p")), "Put")
	_, err := q.Get(bg, []byte("id"), 0)
	nd.Assert(errors.Is(err, io.ErrNotFound), "stores are independent")
	must(q.Put(bg, []byte("id"), 0, []byte("q")), "Put")
	must(q.Update(bg, []byte("id"), 0, []byte("r")), "Update")
	v, err := p.Get(bg, []byte("id"), 0)
	nd.Assert(err == nil && string(v) == "p", "stores are independent")
	must(p.Delete(bg, []byte("id"), 0), "Delete")
	v, err = q.Get(bg, []byte("id"), 0)
	nd.Assert(err == nil && string(v) == "r", "stores are independent")
}

//prop: C17
// Larger data and identifiers.
func H17Large() {
	p := provider()
	n, m := pick("size", 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 9000), 16
	if nd.Choose("which", 2) == 1 {
		if n, m = m, n; m > 1000 {
			nd.Stop()
		}
	}
	v, id := nd.Bytes("v", n), nd.Bytes("id", m)
	nd.Assume(id[0] != 'o' && id[m-1] != 1)
	must(p.Put(bg, []byte("other"), 1, []byte("other")), "Put")
	must(p.Put(bg, clone(id), 1, clone(v)), "Put")
	got, err := p.Get(bg, clone(id), 1)
	nd.Assert(err == nil && len(got) == n && nd.Eq(got, v), "the data is returned as it was stored")
	near := clone(id)
	near[m-1] = 1
	_, err = p.Get(bg, near, 1)
	nd.Assert(errors.Is(err, io.ErrNotFound), "another identifier has no data")
	_, err = p.Get(bg, id[:m-1], 1)
	nd.Assert(errors.Is(err, io.ErrNotFound), "another identifier has no data")
	must(p.Update(bg, clone(id), 1, []byte("short")), "Update")
	got, err = p.Get(bg, clone(id), 1)
	nd.Assert(err == nil && string(got) == "short", "the data is returned as it was updated")
}

//prop: C17
// Many entries: each is found as it was stored, wherever in the sequence it was stored, changed or deleted.
func H17Many() {
	nd.Opt("long")
	p := provider()
	n := pick("entries", 20, 70, 260)
	for i := 0; i < n; i++ {
		must(p.Put(bg, []byte(nth("k", i)), io.DataType(i%3), []byte(nth("v", i))), "Put")
	}
	k := somewhere("which", n)
	key, dt := []byte(nth("k", k)), io.DataType(k%3)
	v := symBytes("value", 5)
	op := nd.Choose("op", 3)
	switch op {
	case 0:
		must(p.Update(bg, key, dt, clone(v)), "Update")
	case 1:
		must(p.Delete(bg, key, dt), "Delete")
	case 2:
		nd.Assert(errors.Is(p.Put(bg, key, dt, clone(v)), io.ErrAlreadyExists), "Put does not overwrite")
	}
	for i := 0; i < n; i++ {
		got, err := p.Get(bg, []byte(nth("k", i)), io.DataType(i%3))
		switch {
		case i == k && op == 0:
			nd.Assert(err == nil && len(got) == len(v) && nd.Eq(got, v), "Get returns what was stored last")
		case i == k && op == 1:
			nd.Assert(errors.Is(err, io.ErrNotFound), "what was deleted is not found")
		default:
			nd.Assert(err == nil && string(got) == nth("v", i), "Get returns what was stored last")
		}
		_, err = p.Get(bg, []byte(nth("k", i)), io.DataType((i+1)%3))
		nd.Assert(errors.Is(err, io.ErrNotFound), "other types have keys of their own")
	}
}

//prop: C17
// A database that fails: every operation reports an error, and not that the entry is missing or exists.
func H17Failing() {
	p := newBolt()
	must(p.Put(bg, []byte("id"), 0, []byte("v")), "Put")
	_, err := io.NewBolt("/nonexistent/dir/db")
	nd.Assert(err != nil, "NewBolt: a database that cannot be opened is an error")
	_, err = io.NewBolt(nd.TempDir() + "/db-failing")
	nd.Assert(err != nil, "NewBolt: a database that cannot be set up is an error")
	model.CloseBolts()
	key := []byte(pick1("key", "id", "other"))
	var got []byte
	switch nd.Choose("op", 4) {
	case 0:
		err = p.Put(bg, key, 0, []byte("w"))
	case 1:
		got, err = p.Get(bg, key, 0)
	case 2:
		err = p.Update(bg, key, 0, []byte("w"))
	case 3:
		err = p.Delete(bg, key, 0)
	}
	nd.Assert(err != nil && len(got) == 0, "an operation on a database that fails reports an error")
	nd.Assert(!errors.Is(err, io.ErrNotFound) && !errors.Is(err, io.ErrAlreadyExists), "a failure is not a missing or an existing entry")
}

//prop: C17
// A database that is in use is not opened a second time: the attempt fails within a moment, and the first user is not
// affected. Its file is for its owner only.
func H17InUse() {
	path := nd.TempDir() + "/used"
	a, err := io.NewBolt(path)
	must(err, "NewBolt")
	v := nd.Bytes("v", 3)
	must(a.Put(bg, []byte("id"), 0, clone(v)), "Put")
	nd.Assert(model.FileMode(path)&0o077 == 0, "the file of a database is for its owner only")
	_, err = io.NewBolt(path)
	nd.Assert(err != nil, "NewBolt: a database in use is an error")
	got, err := a.Get(bg, []byte("id"), 0)
	nd.Assert(err == nil && nd.Eq(got, v), "a database stays usable when somebody else tries to open it")
	model.CloseBolts()
	b, err := io.NewBolt(path)
	nd.Assert(err == nil, "NewBolt: a database that is not in use any more is opened")
	got, err = b.Get(bg, []byte("id"), 0)
	nd.Assert(err == nil && nd.Eq(got, v), "a database holds what it held")
}

//prop: C17
// A database that is closed and opened again holds exactly what it held.
func H17Reopen() {
	path := nd.TempDir() + "/again"
	b, err := io.NewBolt(path)
	must(err, "NewBolt")
	var p io.Provider = &b
	es := []entry{{id: []byte("id"), dt: 0}, {id: []byte("id"), dt: 1}, {id: nd.Bytes("key", pick("keylen", 0, 1, 2)), dt: 1}}
	nd.Assume(!sameKey(es[1], es[2].id, es[2].dt))
	var have [3]bool
	for k := range es {
		es[k].data = nd.Bytes("v", pick("len", 0, 1, 5))
		if have[k] = nd.Choose("put", 2) == 1; have[k] {
			must(p.Put(bg, clone(es[k].id), es[k].dt, clone(es[k].data)), "Put")
		}
	}
	n := pick("times", 1, tiered(2, 3))
	for i := 0; i < n; i++ {
		model.CloseBolts()
		b, err := io.NewBolt(path)
		nd.Assert(err == nil, "NewBolt: a database that exists is opened")
		p = &b
		switch k := nd.Choose("then", 3); k {
		case 1:
			es[k].data = nd.Bytes("w", 3)
			err := p.Update(bg, clone(es[k].id), es[k].dt, clone(es[k].data))
			nd.Assert((err == nil) == have[k], "what a database held can be updated when it is opened again")
		case 2:
			must(p.Delete(bg, clone(es[k].id), es[k].dt), "Delete")
			have[k] = false
		}
	}
	for k, e := range es {
		v, err := p.Get(bg, clone(e.id), e.dt)
		if have[k] {
			nd.Reach("kept")
			nd.Assert(err == nil && len(v) == len(e.data) && nd.Eq(v, e.data), "a database that is opened again holds what it held")
			nd.Assert(errors.Is(p.Put(bg, clone(e.id), e.dt, []byte("x")), io.ErrAlreadyExists), "a database that is opened again knows what exists")
		} else {
			nd.Reach("nothing")
			nd.Assert(errors.Is(err, io.ErrNotFound), "a database that is opened again holds nothing else")
		}
	}
}
