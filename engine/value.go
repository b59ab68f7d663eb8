package main

import (
	"bytes"
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers), F64, Str, Slice, Ptr, *MapObj (nil map = (*MapObj)(nil)),
// Iface, *FuncV, StructV, ArrayV, Tuple, *Chan, *Native, *MapIter, *StrIter
type Value interface{}

type F64 float64

type Str struct {
	s string
	b []*Term // symbolic representation when non-nil
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Obj struct {
	kind uint8
	v    Value
	kids []*Obj
	vals []Value
	typ  types.Type
	id   int
	acc  access
}

const (
	oCell uint8 = iota
	oStruct
	oArr
	oAgg
)

type Ptr struct {
	o   *Obj
	idx int   // -1: the whole object
	sym *Term // extra symbolic offset (BV64) in [0,n)
	n   int
}

var nilPtr = Ptr{nil, -1, nil, 0}

func (p Ptr) isNil() bool { return p.o == nil }

type Slice struct {
	o           *Obj
	off, ln, cp int
}

type Iface struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	nat   func(p *Path, args []Value) Value
}

type StructV []Value
type ArrayV []Value
type Tuple []Value

type MapEntry struct {
	k, v Value
	dead bool
}
type MapObj struct {
	kt, vt  types.Type
	entries []*MapEntry
	n       int
	id      int
	acc     access
}

type MapIter struct {
	m    *MapObj
	pos  int
	perm []*MapEntry
	seen map[*MapEntry]bool
}
type StrIter struct {
	s   Str
	pos int
}
type Chan struct {
	buf    []Value
	cap    int
	closed bool
	et     types.Type
}

type Native struct {
	kind string
	data interface{}
}

func under(t types.Type) types.Type { return t.Underlying() }

func intWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func (p *Path) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 {
			return F64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return nilPtr
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		if w, _, ok := intWidth(t); ok {
			if w == 0 {
				return p.T.False
			}
			return p.T.BV(w, 0)
		}
		p.unsupported("zero of " + t.String())
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(ArrayV, u.Len())
		if len(a) > 0 {
			z := p.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = p.zero(u.At(i).Type())
		}
		return s
	}
	p.unsupported("zero of " + t.String())
	return nil
}

func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (p *Path) newObj(t types.Type, v Value) *Obj {
	p.objN++
	o := &Obj{typ: t, id: p.objN}
	o.acc.site = p.site()
	switch u := under(t).(type) {
	case *types.Struct:
		o.kind = oStruct
		sv := v.(StructV)
		o.kids = make([]*Obj, u.NumFields())
		for i := range o.kids {
			o.kids[i] = p.newObj(u.Field(i).Type(), sv[i])
			o.kids[i].acc.site = o.acc.site*31 + uint64(i) + 1
		}
	case *types.Array:
		av := v.(ArrayV)
		if isAgg(u.Elem()) {
			o.kind = oAgg
			o.kids = make([]*Obj, len(av))
			for i := range av {
				o.kids[i] = p.newObj(u.Elem(), av[i])
			}
		} else {
			o.kind = oArr
			o.vals = append([]Value(nil), av...)
		}
	default:
		o.kind = oCell
		o.v = v
	}
	return o
}

// newArr makes a backing array of n elements of type et.
func (p *Path) newArr(et types.Type, n int) *Obj {
	p.objN++
	o := &Obj{typ: types.NewArray(et, int64(n)), id: p.objN}
	o.acc.site = p.site()
	if isAgg(et) {
		o.kind = oAgg
		o.kids = make([]*Obj, n)
		for i := range o.kids {
			o.kids[i] = p.newObj(et, p.zero(et))
		}
	} else {
		o.kind = oArr
		o.vals = make([]Value, n)
		if n > 0 {
			z := p.zero(et)
			for i := range o.vals {
				o.vals[i] = z
			}
		}
	}
	return o
}

func (p *Path) loadObj(o *Obj) Value {
	switch o.kind {
	case oCell:
		p.touch(&o.acc, false)
		return o.v
	case oStruct:
		s := make(StructV, len(o.kids))
		for i, k := range o.kids {
			s[i] = p.loadObj(k)
		}
		return s
	case oArr:
		p.touch(&o.acc, false)
		return ArrayV(append([]Value(nil), o.vals...))
	default:
		a := make(ArrayV, len(o.kids))
		for i, k := range o.kids {
			a[i] = p.loadObj(k)
		}
		return a
	}
}

func (p *Path) storeObj(o *Obj, v Value) {
	switch o.kind {
	case oCell:
		p.touch(&o.acc, true)
		o.v = v
	case oStruct:
		sv, ok := v.(StructV)
		if !ok {
			p.unsupported(fmt.Sprintf("store %T into struct", v))
		}
		for i, k := range o.kids {
			p.storeObj(k, sv[i])
		}
	case oArr:
		av, ok := v.(ArrayV)
		if !ok {
			p.unsupported(fmt.Sprintf("store %T into array", v))
		}
		p.touch(&o.acc, true)
		copy(o.vals, av)
	default:
		av := v.(ArrayV)
		for i, k := range o.kids {
			p.storeObj(k, av[i])
		}
	}
}

func elemPtr(o *Obj, i int) Ptr {
	if o.kind == oArr {
		return Ptr{o, i, nil, 0}
	}
	return Ptr{o.kids[i], -1, nil, 0}
}

func (p *Path) load(q Ptr) Value {
	if q.o == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if q.sym != nil {
		p.touchAt(&q.o.acc, false, q.idx, q.idx+q.n)
		// ite chain over the range
		var out *Term
		if r := p.tableLookup(q); r != nil {
			return r
		}
		for i := q.n - 1; i >= 0; i-- {
			v := q.o.vals[q.idx+i].(*Term)
			if out == nil {
				out = v
			} else {
				out = p.T.Ite(p.T.Eq(q.sym, p.T.BV(64, uint64(i))), v, out)
			}
		}
		return out
	}
	if q.idx >= 0 {
		if q.o.kind != oArr {
			return p.loadObj(q.o.kids[q.idx])
		}
		p.touchAt(&q.o.acc, false, q.idx, q.idx+1)
		return q.o.vals[q.idx]
	}
	return p.loadObj(q.o)
}

// tableLookup recognises the hex and base64 alphabets so that encoders stay invertible.
func (p *Path) tableLookup(q Ptr) *Term {
	if q.n != 16 && q.n != 64 {
		return nil
	}
	buf := make([]byte, q.n)
	for i := 0; i < q.n; i++ {
		t, ok := q.o.vals[q.idx+i].(*Term)
		if !ok || !t.isConst() || t.w != 8 {
			return nil
		}
		buf[i] = byte(t.u)
	}
	return p.alphabet(string(buf), q.sym)
}

func (p *Path) alphabet(tab string, idx *Term) *Term {
	switch tab {
	case "0123456789abcdef":
		if idx.umax < 16 {
			return p.T.HexE(p.T.Extract(idx, 3, 0))
		}
	case b64std:
		if idx.umax < 64 {
			return p.T.B64E(p.T.Extract(idx, 5, 0), 0)
		}
	case b64url:
		if idx.umax < 64 {
			return p.T.B64E(p.T.Extract(idx, 5, 0), 1)
		}
	case hexReverse:
		if idx.umax < 256 {
			c := p.T.Extract(idx, 7, 0)
			return p.T.Ite(p.T.IsHex(c), p.T.Zext(p.T.HexD(c), 8), p.T.BV(8, 255))
		}
	}
	return nil
}

var hexReverse = func() string {
	b := bytes.Repeat([]byte{0xff}, 256)
	for i := 0; i < 16; i++ {
		b["0123456789abcdef"[i]] = byte(i)
		b["0123456789ABCDEF"[i]] = byte(i)
	}
	return string(b)
}()

func (p *Path) store(q Ptr, v Value) {
	if q.o == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if q.sym != nil {
		nv := v.(*Term)
		p.touchAt(&q.o.acc, true, q.idx, q.idx+q.n)
		for i := 0; i < q.n; i++ {
			old := q.o.vals[q.idx+i].(*Term)
			q.o.vals[q.idx+i] = p.T.Ite(p.T.Eq(q.sym, p.T.BV(64, uint64(i))), nv, old)
		}
		return
	}
	if q.idx >= 0 {
		if q.o.kind != oArr {
			p.storeObj(q.o.kids[q.idx], v)
			return
		}
		p.touchAt(&q.o.acc, true, q.idx, q.idx+1)
		q.o.vals[q.idx] = v
		return
	}
	p.storeObj(q.o, v)
}

func (p *Path) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = p.T.BV(8, uint64(s.s[i]))
	}
	return out
}

func (p *Path) mkStr(b []*Term) Str {
	buf := make([]byte, len(b))
	for i, t := range b {
		if !t.isConst() {
			return Str{b: append([]*Term(nil), b...)}
		}
		buf[i] = byte(t.u)
	}
	return Str{s: string(buf)}
}

func (p *Path) sliceVals(s Slice) []Value {
	if s.o == nil {
		return nil
	}
	if s.o.kind == oArr {
		p.touchAt(&s.o.acc, false, s.off, s.off+s.ln)
		return s.o.vals[s.off : s.off+s.ln]
	}
	out := make([]Value, s.ln)
	for i := range out {
		out[i] = p.loadObj(s.o.kids[s.off+i])
	}
	return out
}

func (p *Path) sliceBytes(s Slice) []*Term {
	out := make([]*Term, s.ln)
	if s.ln > 0 {
		p.touchAt(&s.o.acc, false, s.off, s.off+s.ln)
	}
	for i := 0; i < s.ln; i++ {
		out[i] = s.o.vals[s.off+i].(*Term)
	}
	return out
}

func (p *Path) mkBytes(b []*Term) Slice {
	o := p.newArr(types.Typ[types.Uint8], len(b))
	for i, t := range b {
		o.vals[i] = t
	}
	return Slice{o, 0, len(b), len(b)}
}

func (p *Path) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return p.T.False
	}
	if a.b == nil && b.b == nil {
		return p.T.Bool(a.s == b.s)
	}
	return p.T.EqBytes(p.strBytes(a), p.strBytes(b))
}

func (p *Path) valueEq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return p.T.Eq(x, b.(*Term))
	case F64:
		return p.T.Bool(x == b.(F64))
	case Str:
		return p.strEq(x, b.(Str))
	case Ptr:
		y := b.(Ptr)
		if x.sym != nil || y.sym != nil {
			p.unsupported("compare symbolic pointers")
		}
		return p.T.Bool(x.o == y.o && (x.o == nil || x.idx == y.idx))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			p.unsupported("iface compare")
		}
		if x.t == nil || y.t == nil {
			return p.T.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return p.T.False
		}
		if !types.Comparable(x.t) {
			p.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return p.valueEq(x.v, y.v)
	case StructV:
		y := b.(StructV)
		c := make([]*Term, len(x))
		for i := range x {
			c[i] = p.valueEq(x[i], y[i])
		}
		return p.T.And(c...)
	case ArrayV:
		y := b.(ArrayV)
		if len(x) > 0 {
			if t, ok := x[0].(*Term); ok && t.w == 8 {
				xs, ys := make([]*Term, len(x)), make([]*Term, len(x))
				for i := range x {
					xs[i], ys[i] = x[i].(*Term), y[i].(*Term)
				}
				return p.T.EqBytes(xs, ys)
			}
		}
		c := make([]*Term, len(x))
		for i := range x {
			c[i] = p.valueEq(x[i], y[i])
		}
		return p.T.And(c...)
	case *MapObj:
		y, _ := b.(*MapObj)
		return p.T.Bool(x == y)
	case *FuncV:
		y, _ := b.(*FuncV)
		return p.T.Bool(x == y)
	case *Chan:
		return p.T.Bool(x == b.(*Chan))
	case Slice: // only against nil
		y := b.(Slice)
		return p.T.Bool(x.o == nil && y.o == nil)
	case *Native:
		y, _ := b.(*Native)
		return p.T.Bool(x == y)
	}
	p.unsupported(fmt.Sprintf("compare %T", a))
	return nil
}

func (p *Path) mapFind(m *MapObj, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	p.touch(&m.acc, false)
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if p.Branch(p.valueEqKey(e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) valueEqKey(a, b Value) *Term {
	return p.valueEq(a, b)
}

func (p *Path) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		p.goPanicStr("assignment to entry in nil map")
	}
	p.touch(&m.acc, true)
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	m.entries = append(m.entries, &MapEntry{k: k, v: v})
	m.n++
}

func (p *Path) mapDelete(m *MapObj, k Value) {
	p.touch(&m.acc, true)
	if e := p.mapFind(m, k); e != nil {
		e.dead = true
		m.n--
	}
}
