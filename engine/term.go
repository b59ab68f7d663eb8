package main

// Hash-consed SMT terms over Bool and fixed-width bit-vectors, with local
// simplification. Every worker owns one TermTable.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OSext
	OUF
	OB64E  // 6 -> 8, a: 0 std, 1 url
	OB64D  // 8 -> 6
	OIsB64 // 8 -> bool
	OHexE  // 4 -> 8
	OHexD  // 8 -> 4
	OIsHex // 8 -> bool
	OTok   // 8 -> 8, identity, marks a byte of an abstract text token; a=kind b=index
	OPlain // 8 -> bool: character copied verbatim into a JSON string
)

type Term struct {
	id         int
	op         Op
	w          int // 0 = Bool
	args       []*Term
	u          uint64
	big        *big.Int
	a, b       int
	name       string
	umin, umax uint64
	vars       *varSet
	byts       []*Term // its bytes, as far as extracted
}

type varSet struct {
	ids []int // sorted
}

type termKey struct {
	op         Op
	w          int
	a0, a1, a2 int
	u          uint64
	a, b       int
	name       string
}

type TermTable struct {
	tab   map[termKey]*Term
	ntab  map[string]*Term
	key   []byte
	all   []*Term
	True  *Term
	False *Term
	// lemma terms attached to uninterpreted applications
	lemmas map[int]*Term
	small  [3][256]*Term // constants of 8, 64 and 32 bits
	exMemo map[exKey]*Term
	durs   map[*Term][2]*Term // differences of times: whole seconds and 0 <= nanoseconds < 1e9
	stop   *atomic.Bool       // set when the time is up: ends the path that is being executed
	inPath bool
}

type exKey struct{ id, hi, lo int }

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[termKey]*Term{}, ntab: map[string]*Term{}, lemmas: map[int]*Term{}, exMemo: map[exKey]*Term{}, durs: map[*Term][2]*Term{}}
	t.False = t.mk(&Term{op: OConst, w: 0, u: 0})
	t.True = t.mk(&Term{op: OConst, w: 0, u: 1})
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func mergeVars(args []*Term) *varSet {
	var cur *varSet
	for _, a := range args {
		v := a.vars
		if v == nil || v == cur {
			continue
		}
		if cur == nil {
			cur = v
			continue
		}
		cur = unionVars(cur, v)
	}
	return cur
}

func unionVars(x, y *varSet) *varSet {
	i, j := 0, 0
	out := make([]int, 0, len(x.ids)+len(y.ids))
	for i < len(x.ids) && j < len(y.ids) {
		switch {
		case x.ids[i] < y.ids[j]:
			out = append(out, x.ids[i])
			i++
		case x.ids[i] > y.ids[j]:
			out = append(out, y.ids[j])
			j++
		default:
			out = append(out, x.ids[i])
			i++
			j++
		}
	}
	out = append(out, x.ids[i:]...)
	out = append(out, y.ids[j:]...)
	if len(out) == len(x.ids) {
		return x
	}
	if len(out) == len(y.ids) {
		return y
	}
	return &varSet{out}
}

func (T *TermTable) mk(t *Term) *Term {
	if len(t.args) <= 3 && t.big == nil {
		k := termKey{op: t.op, w: t.w, u: t.u, a: t.a, b: t.b, name: t.name, a0: -1, a1: -1, a2: -1}
		if len(t.args) > 0 {
			k.a0 = t.args[0].id
		}
		if len(t.args) > 1 {
			k.a1 = t.args[1].id
		}
		if len(t.args) > 2 {
			k.a2 = t.args[2].id
		}
		if o, ok := T.tab[k]; ok {
			return o
		}
		T.finish(t)
		T.tab[k] = t
		return t
	}
	k := T.key[:0]
	for _, x := range [...]int{int(t.op), t.w, int(t.u), t.a, t.b, len(t.name)} {
		k = binary.AppendVarint(k, int64(x))
	}
	k = append(k, t.name...)
	if t.big != nil {
		for _, x := range t.big.Bits() {
			k = binary.LittleEndian.AppendUint64(k, uint64(x))
		}
	}
	for _, a := range t.args {
		k = binary.AppendUvarint(k, uint64(a.id))
	}
	T.key = k
	if o, ok := T.ntab[string(k)]; ok {
		return o
	}
	T.finish(t)
	T.ntab[string(k)] = t
	return t
}

func (T *TermTable) finish(t *Term) {
	if T.inPath && T.stop != nil && len(T.all)&63 == 0 && T.stop.Load() {
		panic(&pathAbort{"time", "time budget"})
	}
	t.id = len(T.all)
	T.all = append(T.all, t)
	if t.op == OVar {
		t.vars = &varSet{[]int{t.id}}
	} else if len(t.args) > 0 {
		t.vars = mergeVars(t.args)
	}
	if t.w >= 1 && t.w <= 64 {
		t.umin, t.umax = 0, mask(t.w)
		switch t.op {
		case OConst:
			t.umin, t.umax = t.u, t.u
		case OConcat:
			var lo, hi uint64
			for _, a := range t.args {
				lo = lo<<uint(a.w) | a.umin
				hi = hi<<uint(a.w) | a.umax
			}
			if t.args[0].w < 64 {
				t.umin, t.umax = lo, hi
			}
		case OExtract:
			x := t.args[0]
			if x.w <= 64 && t.b == 0 && x.umax <= mask(t.w) {
				t.umin, t.umax = x.umin, x.umax
			} else if x.w <= 64 && t.a == x.w-1 {
				t.umin, t.umax = x.umin>>uint(t.b), x.umax>>uint(t.b)
			}
		case OIte:
			a, b := t.args[1], t.args[2]
			t.umin, t.umax = min(a.umin, b.umin), max(a.umax, b.umax)
		case OAdd:
			a, b := t.args[0], t.args[1]
			s, c := bits.Add64(a.umax, b.umax, 0)
			if c == 0 && s <= mask(t.w) {
				t.umin, t.umax = a.umin+b.umin, s
			} else {
				// constant "negative" addend that never underflows
				if b.op == OConst && t.w == 64 && int64(b.u) < 0 && a.umin >= uint64(-int64(b.u)) {
					t.umin, t.umax = a.umin+b.u, a.umax+b.u
				}
			}
		case OMul:
			h, l := bits.Mul64(t.args[0].umax, t.args[1].umax)
			if h == 0 && l <= mask(t.w) {
				t.umin, t.umax = t.args[0].umin*t.args[1].umin, l
			}
		case OBAnd:
			t.umax = min(t.args[0].umax, t.args[1].umax)
		case OBOr, OBXor:
			m := t.args[0].umax | t.args[1].umax
			t.umax = mask(bits.Len64(m))
			if t.op == OBOr {
				t.umin = max(t.args[0].umin, t.args[1].umin)
			}
		case OURem:
			if m := t.args[1]; m.umin > 0 {
				t.umax = min(m.umax-1, t.args[0].umax)
			}
		case OUDiv:
			if m := t.args[1]; m.umin > 0 {
				t.umin, t.umax = t.args[0].umin/m.umax, t.args[0].umax/m.umin
			}
		case OLshr:
			t.umax = t.args[0].umax
		case OB64E:
			t.umin, t.umax = 43, 122
			if t.a == 1 {
				t.umin = 45
			}
		case OHexE:
			t.umin, t.umax = 48, 102
		case OTok:
			t.umin, t.umax = t.args[0].umin, t.args[0].umax
		}
	}
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.u == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.u == 0 }
func (t *Term) bigVal() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.u)
}
func (t *Term) sval() int64 {
	if t.w >= 64 {
		return int64(t.u)
	}
	if t.w > 0 && t.u>>(uint(t.w)-1) != 0 {
		return int64(t.u | ^mask(t.w))
	}
	return int64(t.u)
}

func (T *TermTable) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}
func (T *TermTable) BV(w int, u uint64) *Term {
	if w > 64 {
		return T.BVBig(w, new(big.Int).SetUint64(u))
	}
	u &= mask(w)
	if u < 256 {
		k := -1
		switch w {
		case 8:
			k = 0
		case 64:
			k = 1
		case 32:
			k = 2
		}
		if k >= 0 {
			if T.small[k][u] == nil {
				T.small[k][u] = T.mk(&Term{op: OConst, w: w, u: u})
			}
			return T.small[k][u]
		}
	}
	if o, ok := T.tab[termKey{op: OConst, w: w, u: u, a0: -1, a1: -1, a2: -1}]; ok {
		return o
	}
	return T.mk(&Term{op: OConst, w: w, u: u})
}
func (T *TermTable) BVBig(w int, b *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	b = new(big.Int).Mod(b, m)
	if w <= 64 {
		return T.BV(w, b.Uint64())
	}
	return T.mk(&Term{op: OConst, w: w, big: b})
}
func (T *TermTable) Var(name string, w int) *Term {
	return T.mk(&Term{op: OVar, w: w, name: name})
}

func (T *TermTable) Not(x *Term) *Term {
	switch {
	case x.isTrue():
		return T.False
	case x.isFalse():
		return T.True
	case x.op == ONot:
		return x.args[0]
	}
	return T.mk(&Term{op: ONot, args: []*Term{x}})
}

func (T *TermTable) And(xs ...*Term) *Term { return T.nary(OAnd, xs) }
func (T *TermTable) Or(xs ...*Term) *Term  { return T.nary(OOr, xs) }

func (T *TermTable) nary(op Op, xs []*Term) *Term {
	unit, zero := T.True, T.False
	if op == OOr {
		unit, zero = T.False, T.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if x.op == ONot && seen[x.args[0].id] {
			return false
		}
		if n, ok := T.tab[termKey{op: ONot, a0: x.id, a1: -1, a2: -1}]; ok && seen[n.id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// canonical order
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].id < out[j-1].id; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return T.mk(&Term{op: op, args: out})
}

func (T *TermTable) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.w == 0 {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return T.Not(c)
		}
		if x.isTrue() {
			return T.Or(c, y)
		}
		if x.isFalse() {
			return T.And(T.Not(c), y)
		}
		if y.isTrue() {
			return T.Or(T.Not(c), x)
		}
		if y.isFalse() {
			return T.And(c, x)
		}
	}
	if c.op == ONot {
		return T.Ite(c.args[0], y, x)
	}
	return T.mk(&Term{op: OIte, w: x.w, args: []*Term{c, x, y}})
}

// pieces splits t (w bits) into its concat parts, MSB first.
func pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (T *TermTable) Concat(xs ...*Term) *Term {
	var out []*Term
	push := func(x *Term) {
		for len(out) > 0 {
			l := out[len(out)-1]
			if l.isConst() && x.isConst() {
				v := new(big.Int).Lsh(l.bigVal(), uint(x.w))
				v.Or(v, x.bigVal())
				out = out[:len(out)-1]
				x = T.BVBig(l.w+x.w, v)
				continue
			}
			lb, lh, ll := l, l.w-1, 0
			if l.op == OExtract {
				lb, lh, ll = l.args[0], l.a, l.b
			}
			xb, xh, xl := x, x.w-1, 0
			if x.op == OExtract {
				xb, xh, xl = x.args[0], x.a, x.b
			}
			if lb == xb && ll == xh+1 && l.op == OExtract && x.op == OExtract {
				out = out[:len(out)-1]
				x = T.Extract(lb, lh, xl)
				continue
			}
			// pieces of one byte, at least one of them xored with a constant: normalise to a xor of the whole byte
			if le, lc, ok := xorPiece(l); ok {
				if xe, xc, ok := xorPiece(x); ok && (lc != nil || xc != nil) && le.args[0] == xe.args[0] && le.b == xe.a+1 && le.b%8 != 0 {
					base := le.args[0]
					top, bot := min(le.a, le.b|7), max(xe.b, xe.a&^7)
					if (lc == nil || top == le.a) && (xc == nil || bot == xe.b) {
						if lc == nil {
							lc = T.BV(top-le.b+1, 0)
						}
						if xc == nil {
							xc = T.BV(xe.a-bot+1, 0)
						}
						out = out[:len(out)-1]
						if top < le.a {
							out = append(out, T.Extract(base, le.a, top+1))
						}
						mid := T.BXor(T.Extract(base, top, bot), T.Concat(lc, xc))
						if bot > xe.b {
							out = append(out, mid)
							x = T.Extract(base, bot-1, xe.b)
							break
						}
						x = mid
						continue
					}
				}
			}
			break
		}
		if x.op == OConcat {
			out = append(out, x.args...)
			return
		}
		out = append(out, x)
	}
	if len(xs) > 2 {
		xs = T.concatRuns(xs)
	}
	for _, x := range xs {
		if x.w == 0 {
			panic("concat bool")
		}
		if x.op == OConcat {
			for _, a := range x.args {
				push(a)
			}
		} else {
			push(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.w
	}
	return T.mk(&Term{op: OConcat, w: w, args: out})
}

// concatRuns joins runs of constants and of adjacent extracts.
func (T *TermTable) concatRuns(xs []*Term) []*Term {
	out := make([]*Term, 0, len(xs))
	for i := 0; i < len(xs); {
		x := xs[i]
		j := i + 1
		if x.isConst() && x.w > 0 {
			for j < len(xs) && xs[j].isConst() && xs[j].w > 0 {
				j++
			}
			if j > i+1 {
				w := x.w
				if bytewise := func() bool {
					for _, y := range xs[i:j] {
						if y.w != 8 {
							return false
						}
					}
					return true
				}(); bytewise {
					buf := make([]byte, j-i)
					for k := range buf {
						buf[k] = byte(xs[i+k].u)
					}
					x = T.BVBig(8*(j-i), new(big.Int).SetBytes(buf))
				} else {
					v := x.bigVal()
					for _, y := range xs[i+1 : j] {
						w += y.w
						v = new(big.Int).Lsh(v, uint(y.w))
						v.Or(v, y.bigVal())
					}
					x = T.BVBig(w, v)
				}
			}
		} else if x.op == OExtract {
			lo := x.b
			for j < len(xs) && xs[j].op == OExtract && xs[j].args[0] == x.args[0] && xs[j].a+1 == lo {
				lo = xs[j].b
				j++
			}
			if j > i+1 {
				x = T.Extract(x.args[0], x.a, lo)
			}
		}
		out = append(out, x)
		i = j
	}
	return out
}

// xorPiece recognises extract and extract^constant.
func xorPiece(t *Term) (e, c *Term, ok bool) {
	if t.op == OExtract {
		return t, nil, true
	}
	if t.op == OBXor && len(t.args) == 2 && t.args[0].op == OExtract && t.args[1].isConst() {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

func (T *TermTable) Extract(x *Term, hi, lo int) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	if hi >= x.w || lo < 0 || hi < lo {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, x.w))
	}
	if hi == lo+7 && lo&7 == 0 && x.w&7 == 0 {
		if x.byts == nil {
			x.byts = make([]*Term, x.w/8)
		} else if r := x.byts[lo/8]; r != nil {
			return r
		}
		r := T.extract(x, hi, lo)
		x.byts[lo/8] = r
		return r
	}
	switch x.op {
	case OBAnd, OBOr, OBXor, OBNot, OAdd, OMul, OIte, OConcat:
		k := exKey{x.id, hi, lo}
		if r, ok := T.exMemo[k]; ok {
			return r
		}
		r := T.extract(x, hi, lo)
		T.exMemo[k] = r
		return r
	}
	return T.extract(x, hi, lo)
}

func (T *TermTable) extract(x *Term, hi, lo int) *Term {
	w := hi - lo + 1
	switch x.op {
	case OConst:
		if x.big == nil {
			return T.BV(w, x.u>>uint(lo))
		}
		return T.BVBig(w, new(big.Int).Rsh(x.big, uint(lo)))
	case OExtract:
		return T.Extract(x.args[0], hi+x.b, lo+x.b)
	case OConcat:
		var parts []*Term
		pos := x.w
		for _, a := range x.args {
			top := pos - 1
			bot := pos - a.w
			pos = bot
			if bot > hi || top < lo {
				continue
			}
			parts = append(parts, T.Extract(a, min(hi, top)-bot, max(lo, bot)-bot))
		}
		return T.Concat(parts...)
	case OBAnd, OBOr, OBXor:
		return T.bitop(x.op, T.Extract(x.args[0], hi, lo), T.Extract(x.args[1], hi, lo))
	case OBNot:
		return T.BNot(T.Extract(x.args[0], hi, lo))
	case OSext:
		a := x.args[0]
		if hi < a.w {
			return T.Extract(a, hi, lo)
		}
	case OIte:
		if x.args[1].isConst() || x.args[2].isConst() {
			return T.Ite(x.args[0], T.Extract(x.args[1], hi, lo), T.Extract(x.args[2], hi, lo))
		}
	case OAdd, OMul:
		if lo == 0 && x.w <= 64 {
			a, b := T.Extract(x.args[0], hi, 0), T.Extract(x.args[1], hi, 0)
			if x.op == OAdd {
				return T.Add(a, b)
			}
			return T.Mul(a, b)
		}
	case OTok:
		return T.Extract(x.args[0], hi, lo)
	}
	return T.mk(&Term{op: OExtract, w: w, a: hi, b: lo, args: []*Term{x}})
}

func (T *TermTable) Zext(x *Term, w int) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return T.Extract(x, w-1, 0)
	}
	if x.op == OIte && x.args[1].isConst() && x.args[2].isConst() {
		return T.Ite(x.args[0], T.Zext(x.args[1], w), T.Zext(x.args[2], w))
	}
	return T.Concat(T.BV(w-x.w, 0), x)
}

func (T *TermTable) Sext(x *Term, w int) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return T.Extract(x, w-1, 0)
	}
	if x.isConst() && x.w <= 64 && w <= 64 {
		return T.BV(w, uint64(x.sval()))
	}
	if x.w <= 64 && x.umax < uint64(1)<<uint(x.w-1) {
		return T.Zext(x, w)
	}
	return T.mk(&Term{op: OSext, w: w, args: []*Term{x}})
}

func (T *TermTable) BNot(x *Term) *Term {
	if x.isConst() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(x.w))
		m.Sub(m, big.NewInt(1))
		return T.BVBig(x.w, m.Xor(m, x.bigVal()))
	}
	if x.op == OBNot {
		return x.args[0]
	}
	return T.mk(&Term{op: OBNot, w: x.w, args: []*Term{x}})
}

func isZero(x *Term) bool {
	return x.op == OConst && x.w > 0 && x.u == 0 && (x.big == nil || x.big.Sign() == 0)
}
func isOnes(x *Term) bool {
	if x.op != OConst || x.w == 0 {
		return false
	}
	if x.w <= 64 {
		return x.u == mask(x.w)
	}
	return x.big.BitLen() == x.w && new(big.Int).Add(x.big, big.NewInt(1)).BitLen() == x.w+1
}

func (T *TermTable) BAnd(x, y *Term) *Term { return T.bitop(OBAnd, x, y) }
func (T *TermTable) BOr(x, y *Term) *Term  { return T.bitop(OBOr, x, y) }
func (T *TermTable) BXor(x, y *Term) *Term { return T.bitop(OBXor, x, y) }

func (T *TermTable) bitop(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic("bitop width")
	}
	if x.isConst() && y.isConst() {
		r := new(big.Int)
		switch op {
		case OBAnd:
			r.And(x.bigVal(), y.bigVal())
		case OBOr:
			r.Or(x.bigVal(), y.bigVal())
		default:
			r.Xor(x.bigVal(), y.bigVal())
		}
		return T.BVBig(x.w, r)
	}
	if x == y {
		if op == OBXor {
			return T.BV(x.w, 0)
		}
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if isZero(y) {
		if op == OBAnd {
			return y
		}
		return x
	}
	if isOnes(y) {
		switch op {
		case OBAnd:
			return x
		case OBOr:
			return y
		default:
			return T.BNot(x)
		}
	}
	if op == OBXor {
		// cancellation
		if x.op == OBXor {
			if x.args[0] == y {
				return x.args[1]
			}
			if x.args[1] == y {
				return x.args[0]
			}
			if y.isConst() && x.args[1].isConst() {
				return T.bitop(OBXor, x.args[0], T.bitop(OBXor, x.args[1], y))
			}
		}
		if y.op == OBXor {
			if y.args[0] == x {
				return y.args[1]
			}
			if y.args[1] == x {
				return y.args[0]
			}
		}
	}
	if y.isConst() && (op == OBAnd || op == OBOr) && x.op == op && x.args[1].isConst() {
		return T.bitop(op, x.args[0], T.bitop(op, x.args[1], y))
	}
	// constant mask with few runs: split
	cuts := map[int]bool{}
	useful := false
	addCuts := func(t *Term) {
		pos := t.w
		for _, a := range pieces(t) {
			pos -= a.w
			if pos > 0 {
				cuts[pos] = true
			}
			if (isZero(a) || isOnes(a)) && t.op == OConcat {
				useful = true
			}
		}
	}
	if y.isConst() && y.w <= 64 && op != OBXor {
		runs := 0
		prev := y.u & 1
		for i := 1; i < y.w; i++ {
			b := (y.u >> uint(i)) & 1
			if b != prev {
				runs++
				cuts[i] = true
				prev = b
			}
		}
		if runs <= 6 {
			useful = true
		} else {
			cuts = map[int]bool{}
		}
	}
	addCuts(x)
	addCuts(y)
	if useful && len(cuts) > 0 && len(cuts) < 64 {
		var parts []*Term
		hi := x.w - 1
		for p := x.w - 1; p >= 0; p-- {
			if p == 0 || cuts[p] {
				parts = append(parts, T.bitop(op, T.Extract(x, hi, p), T.Extract(y, hi, p)))
				hi = p - 1
			}
		}
		return T.Concat(parts...)
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return T.mk(&Term{op: op, w: x.w, args: []*Term{x, y}})
}

func (T *TermTable) Add(x, y *Term) *Term {
	if x.w > 64 {
		panic("wide add")
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return T.BV(x.w, x.u+y.u)
		}
		if y.u == 0 {
			return x
		}
		if x.op == OAdd && x.args[1].isConst() {
			return T.Add(x.args[0], T.BV(x.w, x.args[1].u+y.u))
		}
	} else {
		if x.op == OAdd && x.args[1].isConst() {
			return T.Add(T.Add(x.args[0], y), x.args[1])
		}
		if y.op == OAdd && y.args[1].isConst() {
			return T.Add(T.Add(x, y.args[0]), y.args[1])
		}
		// x + (-1*x) = 0
		if n := T.asNeg(y); n == x {
			return T.BV(x.w, 0)
		}
		if n := T.asNeg(x); n == y {
			return T.BV(x.w, 0)
		}
		// (a + b) + (-b) = a
		if n := T.asNeg(y); n != nil && x.op == OAdd {
			if x.args[0] == n {
				return x.args[1]
			}
			if x.args[1] == n {
				return x.args[0]
			}
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return T.mk(&Term{op: OAdd, w: x.w, args: []*Term{x, y}})
}

func (T *TermTable) asNeg(x *Term) *Term {
	if x.op == OMul && x.args[1].isConst() && x.args[1].u == mask(x.w) {
		return x.args[0]
	}
	return nil
}
func (T *TermTable) Neg(x *Term) *Term    { return T.Mul(x, T.BV(x.w, mask(x.w))) }
func (T *TermTable) Sub(x, y *Term) *Term { return T.Add(x, T.Neg(y)) }

func (T *TermTable) Mul(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return T.BV(x.w, x.u*y.u)
		}
		if y.u == 0 {
			return y
		}
		if y.u == 1 {
			return x
		}
		if x.op == OMul && x.args[1].isConst() {
			return T.Mul(x.args[0], T.BV(x.w, x.args[1].u*y.u))
		}
		if x.op == OAdd && x.args[1].isConst() {
			return T.Add(T.Mul(x.args[0], y), T.BV(x.w, x.args[1].u*y.u))
		}
		if y.u&(y.u-1) == 0 {
			return T.Shl(x, T.BV(x.w, uint64(bits.TrailingZeros64(y.u))))
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	return T.mk(&Term{op: OMul, w: x.w, args: []*Term{x, y}})
}

func (T *TermTable) Div(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.u != 0 {
		switch op {
		case OUDiv:
			return T.BV(x.w, x.u/y.u)
		case OURem:
			return T.BV(x.w, x.u%y.u)
		case OSDiv:
			if y.sval() == -1 {
				return T.Neg(x)
			}
			return T.BV(x.w, uint64(x.sval()/y.sval()))
		case OSRem:
			if y.sval() == -1 {
				return T.BV(x.w, 0)
			}
			return T.BV(x.w, uint64(x.sval()%y.sval()))
		}
	}
	half := uint64(1) << uint(x.w-1)
	if (op == OSDiv || op == OSRem) && x.umax < half && y.umax < half {
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	}
	if y.isConst() && y.u != 0 && y.u&(y.u-1) == 0 {
		k := bits.TrailingZeros64(y.u)
		if op == OUDiv {
			return T.Lshr(x, T.BV(x.w, uint64(k)))
		}
		if op == OURem {
			return T.BAnd(x, T.BV(x.w, y.u-1))
		}
	}
	if op == OURem && y.umin > 0 && x.umax < y.umin {
		return x
	}
	return T.mk(&Term{op: op, w: x.w, args: []*Term{x, y}})
}

func (T *TermTable) Shl(x, k *Term) *Term {
	if k.isConst() {
		s := k.bigVal()
		if s.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return T.BV(x.w, 0)
		}
		n := int(s.Int64())
		if n == 0 {
			return x
		}
		return T.Concat(T.Extract(x, x.w-1-n, 0), T.BV(n, 0))
	}
	return T.mk(&Term{op: OShl, w: x.w, args: []*Term{x, k}})
}
func (T *TermTable) Lshr(x, k *Term) *Term {
	if k.isConst() {
		s := k.bigVal()
		if s.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return T.BV(x.w, 0)
		}
		n := int(s.Int64())
		if n == 0 {
			return x
		}
		return T.Concat(T.BV(n, 0), T.Extract(x, x.w-1, n))
	}
	return T.mk(&Term{op: OLshr, w: x.w, args: []*Term{x, k}})
}
func (T *TermTable) Ashr(x, k *Term) *Term {
	if x.umax < uint64(1)<<uint(x.w-1) {
		return T.Lshr(x, k)
	}
	if k.isConst() {
		n := int(min(k.u, uint64(x.w-1)))
		return T.Sext(T.Extract(x, x.w-1, n), x.w)
	}
	return T.mk(&Term{op: OAshr, w: x.w, args: []*Term{x, k}})
}

// constClash tells whether constant parts of two concatenations overlap and differ.
func (T *TermTable) constClash(x, y []*Term) bool {
	i, j := 0, 0
	ri, rj := x[0].w, y[0].w // bits of the current pieces that are left
	for {
		n := min(ri, rj)
		a, b := x[i], y[j]
		if a.isConst() && b.isConst() && T.Extract(a, ri-1, ri-n) != T.Extract(b, rj-1, rj-n) {
			return true
		}
		ri -= n
		rj -= n
		if ri == 0 {
			if i++; i == len(x) {
				return false
			}
			ri = x[i].w
		}
		if rj == 0 {
			if j++; j == len(y) {
				return false
			}
			rj = y[j].w
		}
	}
}

// wholeEqs replaces equations between all the pieces of two values, in any order, by one between the values.
func (T *TermTable) wholeEqs(conj []*Term) []*Term {
	if len(conj) < 2 {
		return conj
	}
	type pair struct{ x, y *Term }
	base := func(e *Term) (p pair, hi, lo int, ok bool) {
		if e.op != OEq || e.args[0].op != OExtract || e.args[1].op != OExtract {
			return
		}
		a, b := e.args[0], e.args[1]
		if a.a != b.a || a.b != b.b || a.args[0].w != b.args[0].w {
			return
		}
		p = pair{a.args[0], b.args[0]}
		if p.x.id > p.y.id {
			p.x, p.y = p.y, p.x
		}
		return p, a.a, a.b, true
	}
	sum := map[pair]int{}
	for _, e := range conj {
		if p, hi, lo, ok := base(e); ok {
			sum[p] += hi - lo + 1
		}
	}
	var out []*Term
	for p, n := range sum {
		if n < p.x.w {
			delete(sum, p)
			continue
		}
		seen := make([]bool, p.x.w)
		for _, e := range conj {
			if q, hi, lo, ok := base(e); ok && p == q {
				for i := lo; i <= hi; i++ {
					seen[i] = true
				}
			}
		}
		for _, s := range seen {
			if !s {
				delete(sum, p)
				break
			}
		}
	}
	if len(sum) == 0 {
		return conj
	}
	done := map[pair]bool{}
	for _, e := range conj {
		p, _, _, ok := base(e)
		if _, whole := sum[p]; !ok || !whole {
			out = append(out, e)
		} else if !done[p] {
			done[p] = true
			out = append(out, T.Eq(p.x, p.y))
		}
	}
	return out
}

func (T *TermTable) Eq(x, y *Term) *Term {
	if x == y {
		return T.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("eq width %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return T.False // hash-consed, different
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return T.Not(x)
		}
		if x == T.Not(y) {
			return T.False
		}
	} else {
		if x.w <= 64 && (x.umax < y.umin || y.umax < x.umin) {
			return T.False
		}
		if x.op == OConcat || y.op == OConcat {
			px, py := pieces(x), pieces(y)
			if T.constClash(px, py) {
				return T.False
			}
			if len(px) > 1 && (len(py) > 1 || y.isConst()) {
				cut := map[int]int{}
				pos := x.w
				for _, a := range px[:len(px)-1] {
					pos -= a.w
					cut[pos]++
				}
				if y.isConst() {
					for k := range cut {
						cut[k]++
					}
				} else {
					pos = y.w
					for _, a := range py[:len(py)-1] {
						pos -= a.w
						cut[pos]++
					}
				}
				// equal encodings of adjacent pieces are equal runs of what they encode
				var conj []*Term
				var ra, rb *Term
				flush := func() bool {
					if ra == nil {
						return true
					}
					e := T.Eq(ra, rb)
					ra, rb = nil, nil
					conj = append(conj, e)
					return !e.isFalse()
				}
				hi := x.w - 1
				split := false
				for p := x.w - 1; p >= 0; p-- {
					if p == 0 || cut[p] == 2 {
						if p != 0 {
							split = true
						}
						if split {
							a, b := T.Extract(x, hi, p), T.Extract(y, hi, p)
							hi = p - 1
							if a == b {
								continue
							}
							if a.op == b.op && (a.op == OHexE || a.op == OB64E) && a.a == b.a {
								a, b = a.args[0], b.args[0]
								if a == b {
									continue
								}
								if ra != nil {
									ca, cb := T.Concat(ra, a), T.Concat(rb, b)
									if ca.op != OConcat && cb.op != OConcat {
										ra, rb = ca, cb
										continue
									}
								}
								if !flush() {
									return T.False
								}
								ra, rb = a, b
								continue
							}
							e := T.Eq(a, b)
							if e.isFalse() {
								return e
							}
							conj = append(conj, e)
						}
					}
				}
				if !flush() {
					return T.False
				}
				if split {
					return T.And(T.wholeEqs(conj)...)
				}
			}
		}
		if y.isConst() {
			switch x.op {
			case OIte:
				a, b := x.args[1], x.args[2]
				if a.isConst() && b.isConst() {
					switch {
					case a == y:
						return x.args[0]
					case b == y:
						return T.Not(x.args[0])
					default:
						return T.False
					}
				}
				if a.isConst() || b.isConst() {
					return T.Ite(x.args[0], T.Eq(a, y), T.Eq(b, y))
				}
			case OAdd:
				if x.args[1].isConst() {
					return T.Eq(x.args[0], T.Add(y, T.Neg(x.args[1])))
				}
			case OBXor:
				if x.args[1].isConst() {
					return T.Eq(x.args[0], T.BXor(y, x.args[1]))
				}
			case OBNot:
				return T.Eq(x.args[0], T.BNot(y))
			case OB64E:
				v := strings.IndexByte(b64alpha[x.a], byte(y.u))
				if v < 0 {
					return T.False
				}
				return T.Eq(x.args[0], T.BV(6, uint64(v)))
			case OHexE:
				v := strings.IndexByte("0123456789abcdef", byte(y.u))
				if v < 0 {
					return T.False
				}
				return T.Eq(x.args[0], T.BV(4, uint64(v)))
			case OTok:
				return T.Eq(x.args[0], y)
			}
		} else {
			if x.op == y.op && (x.op == OB64E || x.op == OHexE) && x.a == y.a {
				return T.Eq(x.args[0], y.args[0])
			}
			if x.op == OTok && y.op == OTok {
				return T.Eq(x.args[0], y.args[0])
			}
			if x.op == OAdd && y.op == OAdd && x.args[1] == y.args[1] {
				return T.Eq(x.args[0], y.args[0])
			}
			if x.op == OBXor && y.op == OBXor && x.args[1] == y.args[1] {
				return T.Eq(x.args[0], y.args[0])
			}
		}
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return T.mk(&Term{op: OEq, args: []*Term{x, y}})
}

func (T *TermTable) Ult(x, y *Term) *Term {
	if x == y {
		return T.False
	}
	if x.w <= 64 {
		if x.umax < y.umin {
			return T.True
		}
		if x.umin >= y.umax {
			return T.False
		}
		if y.isConst() && y.u == 1 {
			return T.Eq(x, T.BV(x.w, 0))
		}
	}
	if x.op == OConcat && y.isConst() && isZero(x.args[0]) && x.w <= 64 {
		// zext: comparison on the low part (y is within range by the checks above)
		lw := x.w - x.args[0].w
		return T.Ult(T.Extract(x, lw-1, 0), T.BV(lw, y.u))
	}
	if y.op == OConcat && x.isConst() && isZero(y.args[0]) && y.w <= 64 {
		lw := y.w - y.args[0].w
		return T.Ult(T.BV(lw, x.u), T.Extract(y, lw-1, 0))
	}
	if x.op == OConcat && y.op == OConcat && isZero(x.args[0]) && isZero(y.args[0]) && x.args[0] == y.args[0] && x.w <= 64 {
		lw := x.w - x.args[0].w
		return T.Ult(T.Extract(x, lw-1, 0), T.Extract(y, lw-1, 0))
	}
	return T.mk(&Term{op: OUlt, args: []*Term{x, y}})
}
func (T *TermTable) Ule(x, y *Term) *Term { return T.Not(T.Ult(y, x)) }
func (T *TermTable) Slt(x, y *Term) *Term {
	if x == y {
		return T.False
	}
	if x.isConst() && y.isConst() {
		return T.Bool(x.sval() < y.sval())
	}
	if d, ok := T.durs[x]; ok && y.isConst() {
		return T.durLess(d, y.sval())
	}
	if d, ok := T.durs[y]; ok && x.isConst() {
		if x.sval() == math.MaxInt64 {
			return T.False
		}
		return T.Not(T.durLess(d, x.sval()+1))
	}
	half := uint64(1) << uint(x.w-1)
	xn, yn := x.umax < half, y.umax < half
	if xn && yn {
		return T.Ult(x, y)
	}
	if x.umin >= half && yn {
		return T.True
	}
	if xn && y.umin >= half {
		return T.False
	}
	return T.mk(&Term{op: OSlt, args: []*Term{x, y}})
}

// durLess compares d seconds and nanoseconds with c nanoseconds, without the multiplication.
func (T *TermTable) durLess(d [2]*Term, c int64) *Term {
	s, n := c/1e9, c%1e9
	if n < 0 {
		s, n = s-1, n+1e9
	}
	cs, cn := T.BV(64, uint64(s)), T.BV(64, uint64(n))
	return T.Or(T.Slt(d[0], cs), T.And(T.Eq(d[0], cs), T.Slt(d[1], cn)))
}
func (T *TermTable) Sle(x, y *Term) *Term { return T.Not(T.Slt(y, x)) }

func (T *TermTable) UF(name string, w int, args ...*Term) *Term {
	return T.mk(&Term{op: OUF, w: w, name: name, args: args})
}

const b64std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
const b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

var b64alpha = [2]string{b64std, b64url}

func (T *TermTable) B64E(x *Term, url int) *Term {
	if x.isConst() {
		return T.BV(8, uint64(b64alpha[url][x.u]))
	}
	if x.op == OB64D && x.a == url {
		// only valid under IsB64; callers check it first
		return x.args[0]
	}
	return T.mk(&Term{op: OB64E, w: 8, a: url, args: []*Term{x}})
}
func (T *TermTable) B64D(x *Term, url int) *Term {
	if x.isConst() {
		i := strings.IndexByte(b64alpha[url], byte(x.u))
		if i < 0 {
			i = 0
		}
		return T.BV(6, uint64(i))
	}
	if x.op == OB64E && x.a == url {
		return x.args[0]
	}
	return T.mk(&Term{op: OB64D, w: 6, a: url, args: []*Term{x}})
}
func (T *TermTable) IsB64(x *Term, url int) *Term {
	if x.isConst() {
		return T.Bool(strings.IndexByte(b64alpha[url], byte(x.u)) >= 0)
	}
	if x.op == OB64E && x.a == url {
		return T.True
	}
	if x.op == OHexE {
		return T.True
	}
	return T.mk(&Term{op: OIsB64, a: url, args: []*Term{x}})
}
func (T *TermTable) HexE(x *Term) *Term {
	if x.isConst() {
		return T.BV(8, uint64("0123456789abcdef"[x.u]))
	}
	return T.mk(&Term{op: OHexE, w: 8, args: []*Term{x}})
}
func (T *TermTable) HexD(x *Term) *Term {
	if x.isConst() {
		i := strings.IndexByte("0123456789abcdef", byte(x.u))
		if i < 0 {
			i = strings.IndexByte("0123456789ABCDEF", byte(x.u))
		}
		if i < 0 {
			i = 0
		}
		return T.BV(4, uint64(i))
	}
	if x.op == OHexE {
		return x.args[0]
	}
	return T.mk(&Term{op: OHexD, w: 4, args: []*Term{x}})
}
func (T *TermTable) IsHex(x *Term) *Term {
	if x.isConst() {
		return T.Bool(strings.IndexByte("0123456789abcdefABCDEF", byte(x.u)) >= 0)
	}
	if x.op == OHexE {
		return T.True
	}
	return T.mk(&Term{op: OIsHex, args: []*Term{x}})
}
func (T *TermTable) Tok(x *Term, kind, idx int) *Term {
	return T.mk(&Term{op: OTok, w: 8, a: kind, b: idx, args: []*Term{x}})
}
func plainByte(b byte) bool {
	return b >= 0x20 && b < 0x7f && b != '"' && b != '\\' && b != '<' && b != '>' && b != '&'
}
func (T *TermTable) Plain(x *Term) *Term {
	if x.isConst() {
		return T.Bool(plainByte(byte(x.u)))
	}
	if x.op == OB64E || x.op == OHexE || x.op == OTok {
		return T.True
	}
	return T.mk(&Term{op: OPlain, args: []*Term{x}})
}

// EqBytes: equality of two byte-term vectors of the same length.
func (T *TermTable) EqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return T.False
	}
	if len(a) == 0 {
		return T.True
	}
	same := true
	for i := range a {
		if a[i] != b[i] {
			same = false
			if a[i].isConst() && b[i].isConst() {
				return T.False
			}
		}
	}
	if same {
		return T.True
	}
	return T.Eq(T.Concat(a...), T.Concat(b...))
}

// subst replaces variables according to m (memoised per call).
func (T *TermTable) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = T.Subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = T.Rebuild(t, na)
	}
	memo[t] = r
	return r
}

func (T *TermTable) Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return T.Not(a[0])
	case OAnd:
		return T.And(a...)
	case OOr:
		return T.Or(a...)
	case OEq:
		return T.Eq(a[0], a[1])
	case OIte:
		return T.Ite(a[0], a[1], a[2])
	case OAdd:
		return T.Add(a[0], a[1])
	case OMul:
		return T.Mul(a[0], a[1])
	case OUDiv, OURem, OSDiv, OSRem:
		return T.Div(t.op, a[0], a[1])
	case OBAnd, OBOr, OBXor:
		return T.bitop(t.op, a[0], a[1])
	case OBNot:
		return T.BNot(a[0])
	case OShl:
		return T.Shl(a[0], a[1])
	case OLshr:
		return T.Lshr(a[0], a[1])
	case OAshr:
		return T.Ashr(a[0], a[1])
	case OUlt:
		return T.Ult(a[0], a[1])
	case OSlt:
		return T.Slt(a[0], a[1])
	case OConcat:
		return T.Concat(a...)
	case OExtract:
		return T.Extract(a[0], t.a, t.b)
	case OSext:
		return T.Sext(a[0], t.w)
	case OB64E:
		return T.B64E(a[0], t.a)
	case OB64D:
		return T.B64D(a[0], t.a)
	case OIsB64:
		return T.IsB64(a[0], t.a)
	case OHexE:
		return T.HexE(a[0])
	case OHexD:
		return T.HexD(a[0])
	case OIsHex:
		return T.IsHex(a[0])
	case OTok:
		return T.Tok(a[0], t.a, t.b)
	case OPlain:
		return T.Plain(a[0])
	case OUF:
		return T.UF(t.name, t.w, a...)
	}
	panic("rebuild")
}

func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.u == 1)
		}
		return fmt.Sprintf("%s:%d", t.bigVal().Text(16), t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
	}
	nm := opNames[t.op]
	if t.op == OUF {
		nm = t.name
	}
	if t.op == OExtract {
		nm = fmt.Sprintf("ex[%d:%d]", t.a, t.b)
	}
	return "(" + nm + " " + strings.Join(p, " ") + ")"
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OExtract: "extract", OSext: "sext", OB64E: "b64e", OB64D: "b64d", OIsB64: "isb64", OHexE: "hexe", OHexD: "hexd", OIsHex: "ishex", OTok: "tok", OPlain: "plain"}
