package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func addFmt(m map[string]intrinsicFn) {
	args := func(p *Path, v Value) []Value { return p.sliceVals(v.(Slice)) }
	m["fmt.Sprintf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, _ := p.format(p.constStr(a[0]), args(p, a[1]))
		return s
	}
	m["fmt.Sprint"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprint(args(p, a[0]), false) }
	m["fmt.Sprintln"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprint(args(p, a[0]), true) }
	m["fmt.Appendf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, _ := p.format(p.constStr(a[1]), args(p, a[2]))
		var vs []Value
		for _, b := range p.strBytes(s) {
			vs = append(vs, b)
		}
		return p.appendVals(a[0].(Slice), vs, fn.Signature.Results().At(0).Type())
	}
	m["fmt.Errorf"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s, wrapped := p.format(p.constStr(a[0]), args(p, a[1]))
		if len(wrapped) == 1 {
			wt := p.w.eng.pkgs["fmt"].Type("wrapError").Type()
			o := p.newObj(wt, StructV{s, wrapped[0]})
			return Iface{types.NewPointer(wt), Ptr{o, -1, nil, 0}}
		}
		if len(wrapped) > 1 {
			wt := p.w.eng.pkgs["fmt"].Type("wrapErrors").Type()
			eo := p.newArr(types.Universe.Lookup("error").Type(), len(wrapped))
			for i, w := range wrapped {
				eo.vals[i] = w
			}
			o := p.newObj(wt, StructV{s, Slice{eo, 0, len(wrapped), len(wrapped)}})
			return Iface{types.NewPointer(wt), Ptr{o, -1, nil, 0}}
		}
		return p.mkErrStr(s)
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		m[n] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.zeroResults(fn) }
	}
}

func (p *Path) sprint(args []Value, ln bool) Str {
	var out []*Term
	prevStr := true
	for i, a := range args {
		_, isStr := a.(Iface).v.(Str)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, p.T.BV(8, ' '))
		}
		out = append(out, p.fmtVal('v', "", a.(Iface), 0)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, p.T.BV(8, '\n'))
	}
	return p.mkStr(out)
}

func (p *Path) lit(s string) []*Term { return p.strBytes(Str{s: s}) }

func (p *Path) format(f string, args []Value) (Str, []Iface) {
	var out []*Term
	var wrapped []Iface
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, p.T.BV(8, uint64(f[i])))
			i++
			continue
		}
		i++
		st := i
		for i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == '0' || f[i] == ' ' || (f[i] >= '1' && f[i] <= '9') || f[i] == '.') {
			i++
		}
		flags := f[st:i]
		if i >= len(f) {
			out = append(out, p.lit("%!(NOVERB)")...)
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = append(out, p.T.BV(8, '%'))
			continue
		}
		if ai >= len(args) {
			out = append(out, p.lit("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		v := args[ai].(Iface)
		ai++
		if verb == 'w' {
			if v.t != nil {
				wrapped = append(wrapped, v)
			}
			verb = 'v'
		}
		out = append(out, p.fmtVal(verb, flags, v, 0)...)
	}
	if ai < len(args) {
		out = append(out, p.lit("%!(EXTRA)")...)
	}
	return p.mkStr(out), wrapped
}

func (p *Path) fmtHex(bs []*Term, upper bool) []*Term {
	var out []*Term
	for _, b := range bs {
		for _, n := range []*Term{p.T.Extract(b, 7, 4), p.T.Extract(b, 3, 0)} {
			if upper {
				if !n.isConst() {
					p.unsupported("%X of symbolic bytes")
				}
				out = append(out, p.T.BV(8, uint64("0123456789ABCDEF"[n.u])))
			} else {
				out = append(out, p.T.HexE(n))
			}
		}
	}
	return out
}

func (p *Path) fmtVal(verb byte, flags string, v Iface, depth int) []*Term {
	if depth > 8 {
		p.unsupported("deep format")
	}
	if v.t == nil {
		return p.lit("<nil>")
	}
	if verb == 'T' {
		return p.lit(v.t.String())
	}
	width, zero := 0, false
	if flags != "" {
		for i, c := range flags {
			if c == '0' && i == 0 {
				zero = true
			}
		}
		if w, err := strconv.Atoi(flags); err == nil {
			width = w
		}
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'x' {
		for _, nm := range []string{"Error", "String"} {
			if f := p.w.eng.methodByName(v.t, nm); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if b, ok := f.Signature.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.String {
					if q, ok := v.v.(Ptr); ok && q.isNil() {
						return p.lit("<nil>")
					}
					s := p.callFn(f, []Value{v.v}, nil).(Str)
					if verb == 'x' {
						return p.fmtHex(p.strBytes(s), false)
					}
					return p.strBytes(s)
				}
			}
		}
	}
	switch x := v.v.(type) {
	case Str:
		switch verb {
		case 'x', 'X':
			return p.fmtHex(p.strBytes(x), verb == 'X')
		case 'q':
			if x.b == nil {
				return p.lit(strconv.Quote(x.s))
			}
			return append(append(p.lit("\""), p.strBytes(x)...), p.lit("\"")...)
		}
		return p.strBytes(x)
	case Slice:
		if st, ok := under(v.t).(*types.Slice); ok {
			if w, sg, _ := intWidth(st.Elem()); w == 8 && !sg {
				switch verb {
				case 'x', 'X':
					return p.fmtHex(p.sliceBytes(x), verb == 'X')
				case 's':
					return p.sliceBytes(x)
				}
			}
			out := p.lit("[")
			for i, e := range p.sliceVals(x) {
				if i > 0 {
					out = append(out, p.T.BV(8, ' '))
				}
				out = append(out, p.fmtVal(verb, flags, p.asIface(st.Elem(), e), depth+1)...)
			}
			return append(out, p.lit("]")...)
		}
	case ArrayV:
		if at, ok := under(v.t).(*types.Array); ok {
			if w, sg, _ := intWidth(at.Elem()); w == 8 && !sg && (verb == 'x' || verb == 's') {
				var bs []*Term
				for _, e := range x {
					bs = append(bs, e.(*Term))
				}
				if verb == 's' {
					return bs
				}
				return p.fmtHex(bs, false)
			}
			out := p.lit("[")
			for i, e := range x {
				if i > 0 {
					out = append(out, p.T.BV(8, ' '))
				}
				out = append(out, p.fmtVal(verb, flags, p.asIface(at.Elem(), e), depth+1)...)
			}
			return append(out, p.lit("]")...)
		}
	case *Term:
		if x.w == 0 {
			if p.Branch(x) {
				return p.lit("true")
			}
			return p.lit("false")
		}
		_, sg, _ := intWidth(v.t)
		if (verb == 'x') && !x.isConst() && zero && width*4 == x.w {
			var bs []*Term
			for k := x.w - 8; k >= 0; k -= 8 {
				bs = append(bs, p.T.Extract(x, k+7, k))
			}
			return p.fmtHex(bs, false)
		}
		u := x
		if !x.isConst() {
			u = p.T.BV(x.w, p.Conc(x))
		}
		var s string
		fm := "%" + flags + string(verb)
		if sg {
			s = fmt.Sprintf(fm, u.sval())
		} else {
			s = fmt.Sprintf(fm, u.u)
		}
		return p.lit(s)
	case F64:
		return p.lit(fmt.Sprintf("%"+flags+string(verb), float64(x)))
	case StructV:
		st := under(v.t).(*types.Struct)
		out := p.lit("{")
		for i := range x {
			if i > 0 {
				out = append(out, p.T.BV(8, ' '))
			}
			out = append(out, p.fmtVal(verb, flags, p.asIface(st.Field(i).Type(), x[i]), depth+1)...)
		}
		return append(out, p.lit("}")...)
	case Ptr:
		if x.isNil() {
			return p.lit("<nil>")
		}
		if _, ok := under(v.t.Underlying().(*types.Pointer).Elem()).(*types.Struct); ok && verb == 'v' && depth == 0 {
			et := v.t.Underlying().(*types.Pointer).Elem()
			return append(p.lit("&"), p.fmtVal(verb, flags, Iface{et, p.load(x)}, depth+1)...)
		}
		return p.lit("0xc000010000")
	case *MapObj:
		mt := under(v.t).(*types.Map)
		out := p.lit("map[")
		if x != nil {
			first := true
			for _, e := range x.entries {
				if e.dead {
					continue
				}
				if !first {
					out = append(out, p.T.BV(8, ' '))
				}
				first = false
				out = append(out, p.fmtVal(verb, flags, p.asIface(mt.Key(), e.k), depth+1)...)
				out = append(out, p.T.BV(8, ':'))
				out = append(out, p.fmtVal(verb, flags, p.asIface(mt.Elem(), e.v), depth+1)...)
			}
		}
		return append(out, p.lit("]")...)
	}
	return p.lit("?")
}

func (p *Path) asIface(t types.Type, v Value) Iface {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t, v}
}
