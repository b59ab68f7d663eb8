package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// b64Encode encodes symbolic bytes; pad: '=' padding or none.
func (p *Path) b64Encode(src []*Term, url int, pad bool) []*Term {
	T := p.T
	var out []*Term
	for i := 0; i < len(src); i += 3 {
		n := min(3, len(src)-i)
		var chunk *Term
		switch n {
		case 3:
			chunk = T.Concat(src[i], src[i+1], src[i+2])
		case 2:
			chunk = T.Concat(src[i], src[i+1], T.BV(8, 0))
		default:
			chunk = T.Concat(src[i], T.BV(8, 0), T.BV(8, 0))
		}
		for k := 0; k < n+1; k++ {
			out = append(out, T.B64E(T.Extract(chunk, 23-6*k, 18-6*k), url))
		}
		if pad {
			for k := n + 1; k < 4; k++ {
				out = append(out, T.BV(8, '='))
			}
		}
	}
	return out
}

// b64Decode follows encoding/base64: newlines are skipped, padding is checked; strict bits are not (non-strict encodings).
func (p *Path) b64Decode(in []*Term, url int, pad bool) ([]*Term, bool) {
	T := p.T
	src := make([]*Term, 0, len(in))
	for _, c := range in {
		// '\r' and '\n' are ignored
		if c.op == OB64E {
			src = append(src, c)
			continue
		}
		if !c.isConst() {
			if p.Branch(T.IsB64(c, url)) {
				src = append(src, c)
				continue
			}
		}
		if p.Branch(T.Or(T.Eq(c, T.BV(8, '\n')), T.Eq(c, T.BV(8, '\r')))) {
			continue
		}
		src = append(src, c)
	}
	var six []*Term
	i := 0
	for ; i < len(src); i++ {
		if !p.Branch(T.IsB64(src[i], url)) {
			break
		}
		six = append(six, T.B64D(src[i], url))
	}
	rest := src[i:]
	r := len(six) % 4
	if pad {
		want := 0
		switch r {
		case 0:
		case 2:
			want = 2
		case 3:
			want = 1
		default:
			return nil, false
		}
		if len(rest) != want {
			return nil, false
		}
		for _, c := range rest {
			if !p.Branch(T.Eq(c, T.BV(8, '='))) {
				return nil, false
			}
		}
	} else {
		if len(rest) != 0 || r == 1 {
			return nil, false
		}
	}
	var out []*Term
	for k := 0; k < len(six); k += 4 {
		n := min(4, len(six)-k)
		all := T.Concat(six[k : k+n]...)
		for b := 0; b < n*6/8; b++ {
			hi := n*6 - 1 - 8*b
			out = append(out, T.Extract(all, hi, hi-7))
		}
	}
	return out, true
}

// encodingKind inspects a *base64.Encoding object.
func (p *Path) encodingKind(v Value) (url int, pad bool, ok bool) {
	q := v.(Ptr)
	if q.isNil() {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	o := q.o
	buf := make([]byte, 64)
	for i := 0; i < 64; i++ {
		t, k := o.kids[0].vals[i].(*Term)
		if !k || !t.isConst() {
			return 0, false, false
		}
		buf[i] = byte(t.u)
	}
	switch string(buf) {
	case b64std:
	case b64url:
		url = 1
	default:
		return 0, false, false
	}
	pc := o.kids[2].v.(*Term)
	strict := o.kids[3].v.(*Term)
	if !pc.isConst() || !strict.isFalse() {
		return 0, false, false
	}
	switch int32(pc.u) {
	case '=':
		return url, true, true
	case -1:
		return url, false, true
	}
	return 0, false, false
}

func addBase64(m map[string]intrinsicFn) {
	m["(*encoding/base64.Encoding).EncodeToString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		u, pad, ok := p.encodingKind(a[0])
		if !ok {
			return fallThrough{}
		}
		return p.mkStr(p.b64Encode(p.bytesOf(a[1]), u, pad))
	}
	m["(*encoding/base64.Encoding).Encode"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		u, pad, ok := p.encodingKind(a[0])
		if !ok {
			return fallThrough{}
		}
		out := p.b64Encode(p.bytesOf(a[2]), u, pad)
		d := a[1].(Slice)
		if d.ln < len(out) {
			p.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", len(out)-1, d.ln))
		}
		for i, t := range out {
			p.store(elemPtr(d.o, d.off+i), t)
		}
		return nil
	}
	m["(*encoding/base64.Encoding).DecodeString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		u, pad, ok := p.encodingKind(a[0])
		if !ok {
			return fallThrough{}
		}
		out, good := p.b64Decode(p.bytesOf(a[1]), u, pad)
		if !good {
			return Tuple{p.mkBytes(nil), p.mkErr("illegal base64 data")}
		}
		return Tuple{p.mkBytes(out), nilIface}
	}
	m["(*encoding/base64.Encoding).Decode"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		u, pad, ok := p.encodingKind(a[0])
		if !ok {
			return fallThrough{}
		}
		out, good := p.b64Decode(p.bytesOf(a[2]), u, pad)
		if !good {
			return Tuple{p.i64(0), p.mkErr("illegal base64 data")}
		}
		d := a[1].(Slice)
		if d.ln < len(out) {
			p.goPanicStr("runtime error: index out of range in base64 decode")
		}
		for i, t := range out {
			p.store(elemPtr(d.o, d.off+i), t)
		}
		return Tuple{p.i64(len(out)), nilIface}
	}
}
