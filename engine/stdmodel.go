package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that are implemented with reflection, assembly or the runtime.

func addStd(m map[string]intrinsicFn) {
	m["errors.As"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		tgt := a[1].(Iface)
		if tgt.t == nil {
			p.goPanicStr("errors: target cannot be nil")
		}
		pt, ok := tgt.t.(*types.Pointer)
		if !ok {
			p.goPanicStr("errors: target must be a non-nil pointer")
		}
		return p.T.Bool(p.errorsAs(a[0].(Iface), pt.Elem(), tgt.v.(Ptr)))
	}
	// t.Sub(u) without its overflow check, which divides, where the difference is known to fit a Duration.
	m["(time.Time).Sub"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t, u := a[0].(StructV), a[1].(StructV)
		wt, et := t[0].(*Term), t[1].(*Term)
		wu, eu := u[0].(*Term), u[1].(*Term)
		if mono := p.T.BV(64, 1<<63); p.Branch(p.T.Not(p.T.Eq(p.T.BAnd(p.T.BOr(wt, wu), mono), p.T.BV(64, 0)))) {
			return fallThrough{}
		}
		ds := p.T.Sub(et, eu)
		const lim = 9223372035
		if p.Branch(p.T.And(p.T.Sle(p.i64(-lim), ds), p.T.Sle(ds, p.i64(lim)))) {
			ns := p.T.BV(64, 1<<30-1)
			dn := p.T.Sub(p.T.BAnd(wt, ns), p.T.BAnd(wu, ns))
			d := p.T.Add(p.T.Mul(ds, p.i64(1000000000)), dn)
			if !d.isConst() {
				neg := p.T.Slt(dn, p.i64(0))
				p.T.durs[d] = [2]*Term{
					p.T.Ite(neg, p.T.Sub(ds, p.i64(1)), ds),
					p.T.Ite(neg, p.T.Add(dn, p.i64(1000000000)), dn)}
			}
			return d
		}
		// The seconds differ by centuries: beyond the range of a Duration but for a few seconds around its ends.
		far := int64(1) << 60
		for _, x := range []*Term{et, eu} {
			if !p.Branch(p.T.And(p.T.Sle(p.i64(int(-far)), x), p.T.Sle(x, p.i64(int(far))))) {
				return fallThrough{}
			}
		}
		if p.Branch(p.T.Slt(p.i64(lim+3), ds)) {
			return p.T.BV(64, 1<<63-1)
		}
		if p.Branch(p.T.Slt(ds, p.i64(-lim-3))) {
			return p.T.BV(64, 1<<63)
		}
		return fallThrough{}
	}
	m["reflect.DeepEqual"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.deepIface(a[0].(Iface), a[1].(Iface), 0)
	}
	m["maps.clone"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		o := i.v.(*MapObj)
		n := p.newMap(under(i.t).(*types.Map))
		if o != nil {
			p.touch(&o.acc, false)
			for _, e := range o.entries {
				if !e.dead {
					n.entries = append(n.entries, &MapEntry{k: e.k, v: e.v})
					n.n++
				}
			}
		}
		return Iface{i.t, n}
	}
	srt := func(p *Path, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			p.goPanicStr("reflect: call of Swapper on non-slice value")
		}
		less := a[1].(*FuncV)
		for i := 1; i < s.ln; i++ {
			for j := i; j > 0 && p.Branch(p.callValue(less, []Value{p.i64(j), p.i64(j - 1)}, nil).(*Term)); j-- {
				x, y := elemPtr(s.o, s.off+j), elemPtr(s.o, s.off+j-1)
				v, w := p.load(x), p.load(y)
				p.store(x, w)
				p.store(y, v)
			}
		}
		return nil
	}
	m["sort.Slice"], m["sort.SliceStable"] = srt, srt
	m["slices.overlaps"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		return p.T.Bool(x.o != nil && x.o == y.o && x.ln > 0 && y.ln > 0 && x.off < y.off+y.ln && y.off < x.off+x.ln)
	}
	m["slices.startIdx"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.o == nil || x.o != y.o || y.off < x.off {
			p.goPanicStr("needle not found")
		}
		return p.i64(y.off - x.off)
	}
	idx := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			if p.Branch(p.T.EqBytesLen(x[i:i+len(y)], y)) {
				return p.i64(i)
			}
		}
		return p.i64(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index", "internal/stringslite.Index"} {
		m[n] = idx
	}
	has := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		r := p.T.False
		for i := 0; i+len(y) <= len(x); i++ {
			r = p.T.Or(r, p.T.EqBytesLen(x[i:i+len(y)], y))
		}
		return r
	}
	m["strings.Contains"], m["bytes.Contains"] = has, has
	sfx := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		if len(x) < len(y) {
			return p.T.False
		}
		return p.T.EqBytesLen(x[len(x)-len(y):], y)
	}
	for _, n := range []string{"strings.HasSuffix", "bytes.HasSuffix", "internal/stringslite.HasSuffix"} {
		m[n] = sfx
	}
	m["crypto/internal/constanttime.boolToUint8"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.T.Ite(a[0].(*Term), p.T.BV(8, 1), p.T.BV(8, 0))
	}
	m["internal/synctest.IsInBubble"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.T.False }
}

func (p *Path) errorsAs(err Iface, want types.Type, to Ptr) bool {
	for depth := 0; depth < 50 && err.t != nil; depth++ {
		if it, ok := under(want).(*types.Interface); ok {
			if types.Implements(err.t, it) {
				p.store(to, err)
				return true
			}
		} else if types.Identical(err.t, want) {
			p.store(to, err.v)
			return true
		}
		if _, ok := err.v.(*Native); ok {
			return false
		}
		if f := p.w.eng.methodByName(err.t, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if p.Branch(p.callFn(f, []Value{err.v, Iface{types.NewPointer(want), to}}, nil).(*Term)) {
				return true
			}
		}
		f := p.w.eng.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		switch x := p.callFn(f, []Value{err.v}, nil).(type) {
		case Iface:
			err = x
		case Slice:
			for _, v := range p.sliceVals(x) {
				if p.errorsAs(v.(Iface), want, to) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (p *Path) deepIface(a, b Iface, depth int) *Term {
	if a.t == nil || b.t == nil {
		return p.T.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return p.T.False
	}
	return p.deepEq(a.t, a.v, b.v, depth+1)
}

func (p *Path) deepEq(t types.Type, a, b Value, depth int) *Term {
	if depth > 40 {
		p.unsupported("reflect.DeepEqual of a deep value")
	}
	r := p.T.True
	switch u := under(t).(type) {
	case *types.Interface:
		return p.deepIface(a.(Iface), b.(Iface), depth)
	case *types.Pointer:
		x, y := a.(Ptr), b.(Ptr)
		if x.isNil() || y.isNil() {
			return p.T.Bool(x.isNil() && y.isNil())
		}
		if x.o == y.o && x.idx == y.idx && x.sym == y.sym {
			return p.T.True
		}
		return p.deepEq(u.Elem(), p.load(x), p.load(y), depth+1)
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x.o == nil) != (y.o == nil) || x.ln != y.ln {
			return p.T.False
		}
		xs, ys := p.sliceVals(x), p.sliceVals(y)
		for i := range xs {
			r = p.T.And(r, p.deepEq(u.Elem(), xs[i], ys[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(ArrayV), b.(ArrayV)
		for i := range x {
			r = p.T.And(r, p.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		for i := range x {
			r = p.T.And(r, p.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Map:
		x, y := a.(*MapObj), b.(*MapObj)
		if (x == nil) != (y == nil) {
			return p.T.False
		}
		if x == nil || x == y {
			return p.T.True
		}
		p.touch(&x.acc, false)
		if x.n != y.n {
			return p.T.False
		}
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := p.mapFind(y, e.k)
			if f == nil {
				return p.T.False
			}
			r = p.T.And(r, p.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		x, _ := a.(*FuncV)
		y, _ := b.(*FuncV)
		return p.T.Bool(x == nil && y == nil)
	}
	return p.valueEq(a, b)
}
