package main

// JSON text as produced and accepted by json-iterator (ConfigDefault) and encoding/json, over symbolic bytes.
// Deviations: a symbolic integer is written as an 8-byte token, an instant as a 12-byte token (seconds, nanoseconds);
// both are injective, fixed-length stand-ins for the decimal / RFC 3339 text.

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type jsonErr struct{ e Iface }

type jenc struct {
	p    *Path
	out  []*Term
	std  bool // encoding/json
	html bool
	sort bool
}

const jsoniterPkg = "github.com/json-iterator/go"

func addJSON(m map[string]intrinsicFn) {
	marshal := func(std bool) intrinsicFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.jsonMarshal(a[0].(Iface), std, true, std)
		}
	}
	unmarshal := func(std bool) intrinsicFn {
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.jsonUnmarshal(p.bytesOf(a[0]), a[1].(Iface), std)
		}
	}
	m[jsoniterPkg+".Marshal"] = marshal(false)
	m["encoding/json.Marshal"] = marshal(true)
	m[jsoniterPkg+".Unmarshal"] = unmarshal(false)
	m[jsoniterPkg+".UnmarshalFromString"] = unmarshal(false)
	m["encoding/json.Unmarshal"] = unmarshal(true)
	m[jsoniterPkg+".MarshalToString"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		t := p.jsonMarshal(a[0].(Iface), false, true, false).(Tuple)
		return Tuple{p.mkStr(p.bytesOf(t[0])), t[1]}
	}
}

// jsonStream is an encoder or a decoder over a stream.
type jsonStream struct {
	io        Iface
	std       bool
	html, srt bool
	buf       []*Term
	read      bool
}

func addJSONStreams(m map[string]intrinsicFn) {
	for _, pkg := range []string{"encoding/json", jsoniterPkg} {
		std := pkg == "encoding/json"
		mk := func(p *Path, fn *ssa.Function, a []Value) Value {
			return &Native{"jsonstream", &jsonStream{io: a[0].(Iface), std: std, html: true, srt: std}}
		}
		m[pkg+".NewEncoder"], m[pkg+".NewDecoder"] = mk, mk
		m["(*"+pkg+".Encoder).Encode"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			st := a[0].(*Native).data.(*jsonStream)
			t := p.jsonMarshal(a[1].(Iface), st.std, st.html, st.srt).(Tuple)
			if e := t[1].(Iface); e.t != nil {
				return e
			}
			out := append(append([]*Term{}, p.bytesOf(t[0])...), p.T.BV(8, '\n'))
			return p.method(st.io, "Write", p.mkBytes(out)).(Tuple)[1]
		}
		m["(*"+pkg+".Encoder).SetEscapeHTML"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			a[0].(*Native).data.(*jsonStream).html = p.Branch(a[1].(*Term))
			return nil
		}
		m["(*"+pkg+".Decoder).Decode"] = func(p *Path, fn *ssa.Function, a []Value) Value {
			st := a[0].(*Native).data.(*jsonStream)
			if !st.read {
				st.read = true
				f := p.w.eng.pkgs["io"].Func("ReadAll")
				t := p.callFn(f, []Value{st.io}, nil).(Tuple)
				if e := t[1].(Iface); e.t != nil {
					return e
				}
				st.buf = p.bytesOf(t[0])
			}
			if len(st.buf) == 0 {
				return p.load(Ptr{p.global(p.w.eng.pkgs["io"].Var("EOF")), -1, nil, 0})
			}
			// the next value; what follows stays
			n, r := p.jsonDecodeOne(st.buf, a[1].(Iface), st.std)
			st.buf = st.buf[n:]
			return r
		}
	}
}

// method calls a method of a value in an interface.
func (p *Path) method(r Iface, name string, args ...Value) Value {
	if r.t == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	f := p.w.eng.methodByName(r.t, name)
	if f == nil {
		p.unsupported("method " + name + " on " + r.t.String())
	}
	return p.callFn(f, append([]Value{r.v}, args...), nil)
}

func (p *Path) jsonAPI(n *Native, name string, a []Value) Value {
	cfg := n.data.(string)
	html := cfg != "ConfigFastest"
	srt := cfg == "ConfigCompatibleWithStandardLibrary"
	switch name {
	case "Marshal":
		return p.jsonMarshal(a[0].(Iface), srt, html, srt)
	case "MarshalToString":
		t := p.jsonMarshal(a[0].(Iface), srt, html, srt).(Tuple)
		return Tuple{p.mkStr(p.bytesOf(t[0])), t[1]}
	case "Unmarshal", "UnmarshalFromString":
		return p.jsonUnmarshal(p.bytesOf(a[0]), a[1].(Iface), srt)
	}
	if name == "NewEncoder" || name == "NewDecoder" {
		return &Native{"jsonstream", &jsonStream{io: a[0].(Iface), std: srt, html: html, srt: srt}}
	}
	p.unsupported("jsoniter API method " + name)
	return nil
}

func (p *Path) jsonMarshal(v Iface, std, html, srt bool) (res Value) {
	e := &jenc{p: p, std: std, html: html, sort: srt}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				res = Tuple{Slice{}, je.e}
				return
			}
			panic(r)
		}
	}()
	if v.t == nil {
		e.lit("null")
	} else {
		e.enc(v.t, v.v)
	}
	return Tuple{p.mkBytes(e.out), nilIface}
}

func (e *jenc) lit(s string) { e.out = append(e.out, e.p.lit(s)...) }
func (e *jenc) fail(s string) {
	panic(jsonErr{e.p.mkErr(s)})
}

func hasMethod(p *Path, t types.Type, name string, np, nr int) *ssa.Function {
	f := p.w.eng.methodByName(t, name)
	if f == nil || f.Signature.Params().Len() != np || f.Signature.Results().Len() != nr {
		return nil
	}
	return f
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isRaw(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "encoding/json" || n.Obj().Pkg().Path() == jsoniterPkg)
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *jenc) enc(t types.Type, v Value) {
	p := e.p
	if isTime(t) {
		e.encTime(t, v)
		return
	}
	if isRaw(t) {
		s := v.(Slice)
		if s.o == nil {
			e.lit("null")
		} else {
			e.out = append(e.out, p.sliceBytes(s)...)
		}
		return
	}
	if q, ok := v.(Ptr); ok && q.isNil() {
		if _, isP := under(t).(*types.Pointer); isP {
			e.lit("null")
			return
		}
	}
	if pt, ok := under(t).(*types.Pointer); ok && isTime(pt.Elem()) {
		e.enc(pt.Elem(), p.load(v.(Ptr)))
		return
	}
	if _, isI := under(t).(*types.Interface); !isI {
		if f := hasMethod(p, t, "MarshalJSON", 0, 2); f != nil {
			r := p.callFn(f, []Value{v}, nil).(Tuple)
			if r[1].(Iface).t != nil {
				panic(jsonErr{r[1].(Iface)})
			}
			e.out = append(e.out, p.bytesOf(r[0])...)
			return
		}
		if f := hasMethod(p, t, "MarshalText", 0, 2); f != nil {
			r := p.callFn(f, []Value{v}, nil).(Tuple)
			if r[1].(Iface).t != nil {
				panic(jsonErr{r[1].(Iface)})
			}
			e.encStr(p.bytesOf(r[0]))
			return
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			e.encStr(p.strBytes(v.(Str)))
		case u.Info()&types.IsBoolean != 0:
			if p.Branch(v.(*Term)) {
				e.lit("true")
			} else {
				e.lit("false")
			}
		case u.Info()&types.IsInteger != 0:
			x := v.(*Term)
			_, sg, _ := intWidth(t)
			if x.isConst() {
				if sg {
					e.lit(strconv.FormatInt(x.sval(), 10))
				} else {
					e.lit(strconv.FormatUint(x.u, 10))
				}
				return
			}
			if x.w < 64 {
				if sg {
					x = p.T.Sext(x, 64)
				} else {
					x = p.T.Zext(x, 64)
				}
			}
			for i, b := range p.splitBytes(x, 8) {
				e.out = append(e.out, p.T.Tok(b, 1, i))
			}
		case u.Info()&types.IsFloat != 0:
			e.lit(strconv.FormatFloat(float64(v.(F64)), 'g', -1, 64))
		default:
			e.fail("json: unsupported type")
		}
	case *types.Pointer:
		e.enc(u.Elem(), p.load(v.(Ptr)))
	case *types.Slice:
		s := v.(Slice)
		if s.o == nil {
			e.lit("null")
			return
		}
		if isByteSlice(t) {
			e.lit("\"")
			e.out = append(e.out, p.b64Encode(p.sliceBytes(s), 0, true)...)
			e.lit("\"")
			return
		}
		e.lit("[")
		for i, x := range p.sliceVals(s) {
			if i > 0 {
				e.lit(",")
			}
			e.encElem(u.Elem(), x)
		}
		e.lit("]")
	case *types.Array:
		e.lit("[")
		for i, x := range v.(ArrayV) {
			if i > 0 {
				e.lit(",")
			}
			e.encElem(u.Elem(), x)
		}
		e.lit("]")
	case *types.Map:
		m, _ := v.(*MapObj)
		if m == nil {
			e.lit("null")
			return
		}
		p.touch(&m.acc, false)
		var live []*MapEntry
		for _, en := range m.entries {
			if !en.dead {
				live = append(live, en)
			}
		}
		if e.sort {
			conc := true
			for _, en := range live {
				if s, ok := en.k.(Str); !ok || s.b != nil {
					conc = false
				}
			}
			if conc {
				sort.SliceStable(live, func(i, j int) bool { return live[i].k.(Str).s < live[j].k.(Str).s })
			}
		}
		e.lit("{")
		for i, en := range live {
			if i > 0 {
				e.lit(",")
			}
			e.encKey(u.Key(), en.k)
			e.lit(":")
			e.encElem(u.Elem(), en.v)
		}
		e.lit("}")
	case *types.Struct:
		e.lit("{")
		first := true
		for _, f := range jsonFields(u, nil) {
			fv := v
			for _, i := range f.path {
				if q, ok := fv.(Ptr); ok {
					fv = p.load(q)
				}
				fv = fv.(StructV)[i]
			}
			if f.omit && e.isEmpty(f.t, fv) {
				continue
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.encStr(p.lit(f.name))
			e.lit(":")
			if f.str {
				p.unsupported("json string option")
			}
			e.encElem(f.t, fv)
		}
		e.lit("}")
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			e.lit("null")
			return
		}
		e.enc(i.t, i.v)
	default:
		e.fail("json: unsupported type: " + t.String())
	}
}

func (e *jenc) encElem(t types.Type, v Value) {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			e.lit("null")
		} else {
			e.enc(i.t, i.v)
		}
		return
	}
	e.enc(t, v)
}

func (e *jenc) isEmpty(t types.Type, v Value) bool {
	switch x := v.(type) {
	case Str:
		return x.Len() == 0
	case Slice:
		return x.ln == 0
	case *MapObj:
		return x == nil || x.n == 0
	case Ptr:
		return x.isNil()
	case Iface:
		return x.t == nil
	case *Term:
		if x.w == 0 {
			return !e.p.Branch(x)
		}
		return e.p.Branch(e.p.T.Eq(x, e.p.T.BV(x.w, 0)))
	case F64:
		return x == 0
	}
	return false
}

func (e *jenc) encKey(t types.Type, v Value) {
	p := e.p
	if f := hasMethod(p, t, "MarshalText", 0, 2); f != nil {
		if b, ok := under(t).(*types.Basic); !ok || b.Info()&types.IsString == 0 || true {
			r := p.callFn(f, []Value{v}, nil).(Tuple)
			if r[1].(Iface).t != nil {
				panic(jsonErr{r[1].(Iface)})
			}
			e.encStr(p.bytesOf(r[0]))
			return
		}
	}
	switch x := v.(type) {
	case Str:
		e.encStr(p.strBytes(x))
	case *Term:
		e.lit("\"")
		e.enc(t, v)
		e.lit("\"")
	default:
		e.fail("json: unsupported map key")
	}
}

func (e *jenc) encTime(t types.Type, v Value) {
	p := e.p
	sec := p.callFn(p.w.eng.methodByName(t, "Unix"), []Value{v}, nil).(*Term)
	ns := p.callFn(p.w.eng.methodByName(t, "Nanosecond"), []Value{v}, nil).(*Term)
	if z, ok := p.callFn(p.w.eng.methodByName(t, "Zone"), []Value{v}, nil).(Tuple); ok && len(z) == 2 {
		off, _ := z[1].(*Term)
		if off != nil && off.isConst() && sec.isConst() && ns.isConst() {
			tm := time.Unix(int64(sec.u), int64(ns.u)).In(time.FixedZone("", int(int64(off.u))))
			if int64(off.u) == 0 {
				tm = tm.UTC()
			}
			b, err := tm.MarshalJSON()
			if err != nil {
				p.unsupported("json: time out of range")
			}
			e.lit(string(b))
			return
		}
		if off == nil || !off.isConst() || off.u != 0 {
			p.unsupported("json: symbolic time with a zone")
		}
	}
	e.lit("\"")
	for i, b := range p.splitBytes(sec, 8) {
		e.out = append(e.out, p.T.Tok(b, 2, i))
	}
	n32 := p.T.Extract(ns, 31, 0)
	for i, b := range p.splitBytes(n32, 4) {
		e.out = append(e.out, p.T.Tok(b, 2, 8+i))
	}
	e.lit("\"")
}

func (e *jenc) encStr(s []*Term) {
	p := e.p
	e.lit("\"")
	defer e.lit("\"")
	var plain []*Term
	need := false
	for _, c := range s {
		pl := p.T.Plain(c)
		if pl.isFalse() {
			need = true
			break
		}
		plain = append(plain, pl)
	}
	if !need && (len(plain) == 0 || p.Branch(p.T.And(plain...))) {
		e.out = append(e.out, s...)
		return
	}
	it := &StrIter{s: Str{b: s}}
	for it.pos < len(s) {
		c := s[it.pos]
		if p.Branch(p.T.Plain(c)) {
			e.out = append(e.out, c)
			it.pos++
			continue
		}
		st := it.pos
		r, n, _ := p.nextRune(it)
		if n == 1 {
			if p.Branch(p.T.Eq(r, p.T.BV(32, 0xFFFD))) {
				e.lit("\\ufffd")
				continue
			}
			done := false
			for _, q := range []struct {
				c byte
				s string
			}{{'"', "\\\""}, {'\\', "\\\\"}, {'\n', "\\n"}, {'\r', "\\r"}, {'\t', "\\t"}} {
				if p.Branch(p.T.Eq(c, p.T.BV(8, uint64(q.c)))) {
					e.lit(q.s)
					done = true
					break
				}
			}
			if done {
				continue
			}
			if e.std {
				for _, q := range []struct {
					c byte
					s string
				}{{'\b', "\\b"}, {'\f', "\\f"}} {
					if p.Branch(p.T.Eq(c, p.T.BV(8, uint64(q.c)))) {
						e.lit(q.s)
						done = true
						break
					}
				}
				if done {
					continue
				}
			}
			esc := p.T.Ult(c, p.T.BV(8, 0x20))
			if e.html {
				esc = p.T.Or(esc, p.T.Eq(c, p.T.BV(8, '<')), p.T.Eq(c, p.T.BV(8, '>')), p.T.Eq(c, p.T.BV(8, '&')))
			}
			if p.Branch(esc) {
				e.lit("\\u00")
				e.out = append(e.out, p.T.HexE(p.T.Extract(c, 7, 4)), p.T.HexE(p.T.Extract(c, 3, 0)))
			} else {
				e.out = append(e.out, c)
			}
			continue
		}
		if n == 3 && (e.html || e.std) {
			if p.Branch(p.T.Eq(r, p.T.BV(32, 0x2028))) {
				e.lit("\\u2028")
				continue
			}
			if p.Branch(p.T.Eq(r, p.T.BV(32, 0x2029))) {
				e.lit("\\u2029")
				continue
			}
		}
		e.out = append(e.out, s[st:st+n]...)
	}
}

type jfield struct {
	name      string
	path      []int
	t         types.Type
	omit, str bool
}

func jsonFields(st *types.Struct, pre []int) []jfield {
	var out []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		path := append(append([]int(nil), pre...), i)
		if f.Embedded() && parts[0] == "" {
			ft := f.Type()
			if s, ok := under(ft).(*types.Struct); ok {
				out = append(out, jsonFields(s, path)...)
				continue
			}
			if pt, ok := under(ft).(*types.Pointer); ok {
				if s, ok := under(pt.Elem()).(*types.Struct); ok {
					out = append(out, jsonFields(s, path)...)
					continue
				}
			}
		}
		if !f.Exported() {
			continue
		}
		jf := jfield{name: f.Name(), path: path, t: f.Type()}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			if o == "omitempty" || o == "omitzero" {
				jf.omit = true
			}
			if o == "string" {
				jf.str = true
			}
		}
		out = append(out, jf)
	}
	return out
}

// ---- decoding ----

type jdec struct {
	p   *Path
	in  []*Term
	pos int
	std bool
}

func (p *Path) jsonUnmarshal(in []*Term, v Iface, std bool) Value {
	_, r := p.jsonDecode(in, v, std, false)
	return r
}

func (p *Path) jsonDecodeOne(in []*Term, v Iface, std bool) (int, Value) {
	return p.jsonDecode(in, v, std, true)
}

func (p *Path) jsonDecode(in []*Term, v Iface, std, more bool) (n int, res Value) {
	d := &jdec{p: p, in: in, std: std}
	defer func() {
		if r := recover(); r != nil {
			if je, ok := r.(jsonErr); ok {
				n, res = len(in), je.e
				return
			}
			panic(r)
		}
	}()
	pt, ok := under(v.t).(*types.Pointer)
	if v.t == nil || !ok || v.v.(Ptr).isNil() {
		return 0, p.mkErr("json: can only unmarshal into pointer")
	}
	if std {
		// encoding/json validates the whole text first
		s := &jdec{p: p, in: in, std: std}
		s.skip()
		s.ws()
		if s.pos != len(in) && !more {
			return 0, p.mkErr("json: invalid character after top-level value")
		}
	}
	d.dec(pt.Elem(), v.v.(Ptr))
	if more {
		return d.pos, nilIface
	}
	d.ws()
	if d.pos != len(d.in) {
		return d.pos, p.mkErr("there are bytes left after unmarshal")
	}
	return d.pos, nilIface
}

func (d *jdec) fail(s string) { panic(jsonErr{d.p.mkErr("json: " + s)}) }

func (d *jdec) eof() bool { return d.pos >= len(d.in) }

// is reports whether the current byte equals c (forking if symbolic).
func (d *jdec) is(c byte) bool {
	if d.eof() {
		return false
	}
	return d.p.Branch(d.p.T.Eq(d.in[d.pos], d.p.T.BV(8, uint64(c))))
}

func (d *jdec) ws() {
	for !d.eof() {
		t := d.in[d.pos]
		if t.op == OTok {
			return
		}
		w := d.p.T.Or(d.p.T.Eq(t, d.p.T.BV(8, ' ')), d.p.T.Eq(t, d.p.T.BV(8, '\n')), d.p.T.Eq(t, d.p.T.BV(8, '\t')), d.p.T.Eq(t, d.p.T.BV(8, '\r')))
		if !d.p.Branch(w) {
			return
		}
		d.pos++
	}
}

func (d *jdec) expect(c byte) {
	d.ws()
	if !d.is(c) {
		d.fail(fmt.Sprintf("expected %q", string(rune(c))))
	}
	d.pos++
}

func (d *jdec) word(w string) {
	for i := 0; i < len(w); i++ {
		if !d.is(w[i]) {
			d.fail("bad literal")
		}
		d.pos++
	}
}

// null consumes a null literal if present.
func (d *jdec) null() bool {
	d.ws()
	if d.eof() {
		d.fail("unexpected end of input")
	}
	if d.in[d.pos].op == OTok {
		return false
	}
	if d.is('n') {
		d.word("null")
		return true
	}
	return false
}

func (d *jdec) str() []*Term {
	p := d.p
	d.ws()
	if !d.is('"') {
		d.fail("expected a string")
	}
	d.pos++
	var out []*Term
	for {
		if d.eof() {
			d.fail("unexpected end of string")
		}
		c := d.in[d.pos]
		if c.op == OTok {
			out = append(out, c)
			d.pos++
			continue
		}
		if v, ok := p.known(p.T.Plain(c)); ok && v {
			out = append(out, c)
			d.pos++
			continue
		}
		if d.is('"') {
			d.pos++
			return out
		}
		if d.is('\\') {
			d.pos++
			out = append(out, d.esc()...)
			continue
		}
		if p.Branch(p.T.Ult(c, p.T.BV(8, 0x20))) {
			d.fail("invalid control character")
		}
		out = append(out, c)
		d.pos++
	}
}

func (d *jdec) hex4() *Term {
	p := d.p
	var ns []*Term
	for i := 0; i < 4; i++ {
		if d.eof() {
			d.fail("short \\u escape")
		}
		c := d.in[d.pos]
		if !p.Branch(p.T.IsHex(c)) {
			d.fail("bad \\u escape")
		}
		ns = append(ns, p.T.HexD(c))
		d.pos++
	}
	return p.T.Zext(p.T.Concat(ns...), 32)
}

func (d *jdec) runeBytes(r *Term) []*Term {
	p := d.p
	if p.Branch(p.T.Ult(r, p.T.BV(32, 0x80))) {
		return []*Term{p.T.Extract(r, 7, 0)}
	}
	s := p.convert(r, types.Typ[types.Int32], types.Typ[types.String]).(Str)
	return p.strBytes(s)
}

func (d *jdec) esc() []*Term {
	p := d.p
	if d.eof() {
		d.fail("short escape")
	}
	for _, q := range []struct{ c, r byte }{{'"', '"'}, {'\\', '\\'}, {'/', '/'}, {'b', '\b'}, {'f', '\f'}, {'n', '\n'}, {'r', '\r'}, {'t', '\t'}} {
		if d.is(q.c) {
			d.pos++
			return []*Term{p.T.BV(8, uint64(q.r))}
		}
	}
	if !d.is('u') {
		d.fail("invalid escape")
	}
	d.pos++
	r := d.hex4()
	hi := p.T.And(p.T.Ule(p.T.BV(32, 0xD800), r), p.T.Ult(r, p.T.BV(32, 0xE000)))
	if p.Branch(hi) {
		if d.pos+1 < len(d.in) && d.is('\\') {
			save := d.pos
			d.pos++
			if d.is('u') {
				d.pos++
				r2 := d.hex4()
				lo := p.T.And(p.T.Ule(p.T.BV(32, 0xDC00), r2), p.T.Ult(r2, p.T.BV(32, 0xE000)), p.T.Ult(r, p.T.BV(32, 0xDC00)))
				if p.Branch(lo) {
					v := p.T.Add(p.T.Add(p.T.Shl(p.T.Sub(r, p.T.BV(32, 0xD800)), p.T.BV(32, 10)), p.T.Sub(r2, p.T.BV(32, 0xDC00))), p.T.BV(32, 0x10000))
					return d.runeBytes(v)
				}
				d.pos = save
				return p.lit("\uFFFD")
			}
			d.pos = save
		}
		return p.lit("\uFFFD")
	}
	return d.runeBytes(r)
}

// skip consumes any JSON value.
func (d *jdec) skip() {
	d.ws()
	if d.eof() {
		d.fail("unexpected end of input")
	}
	if d.in[d.pos].op == OTok {
		d.number()
		return
	}
	switch {
	case d.is('"'):
		d.str()
	case d.is('{'):
		d.pos++
		d.ws()
		if d.is('}') {
			d.pos++
			return
		}
		for {
			d.str()
			d.expect(':')
			d.skip()
			d.ws()
			if d.is(',') {
				d.pos++
				d.ws()
				continue
			}
			d.expect('}')
			return
		}
	case d.is('['):
		d.pos++
		d.ws()
		if d.is(']') {
			d.pos++
			return
		}
		for {
			d.skip()
			d.ws()
			if d.is(',') {
				d.pos++
				continue
			}
			d.expect(']')
			return
		}
	case d.is('t'):
		d.word("true")
	case d.is('f'):
		d.word("false")
	case d.is('n'):
		d.word("null")
	default:
		d.number()
	}
}

// number returns either a token term (64 bit) or a concrete literal.
func (d *jdec) number() (*Term, string) {
	p := d.p
	d.ws()
	if d.eof() {
		d.fail("unexpected end of input")
	}
	if c := d.in[d.pos]; c.op == OTok {
		return d.tok(1, 8), ""
	}
	var s []byte
	for !d.eof() {
		c := d.in[d.pos]
		if c.op == OTok {
			p.unsupported("json: spliced token")
		}
		if !c.isConst() {
			num := p.T.Or(p.T.And(p.T.Ule(p.T.BV(8, '0'), c), p.T.Ule(c, p.T.BV(8, '9'))), p.T.Eq(c, p.T.BV(8, '-')), p.T.Eq(c, p.T.BV(8, '+')), p.T.Eq(c, p.T.BV(8, '.')), p.T.Eq(c, p.T.BV(8, 'e')), p.T.Eq(c, p.T.BV(8, 'E')))
			if !p.Branch(num) {
				break
			}
			c = p.T.BV(8, p.Conc(c))
		}
		if strings.IndexByte("0123456789+-.eE", byte(c.u)) < 0 {
			break
		}
		s = append(s, byte(c.u))
		d.pos++
	}
	if len(s) == 0 {
		d.fail("expected a number")
	}
	return nil, string(s)
}

func (d *jdec) tok(kind, n int) *Term {
	var ts []*Term
	for i := 0; i < n; i++ {
		if d.eof() {
			d.p.unsupported("json: truncated token")
		}
		c := d.in[d.pos]
		if c.op != OTok || c.a != kind || c.b != i {
			d.p.unsupported("json: spliced token")
		}
		ts = append(ts, c.args[0])
		d.pos++
	}
	return d.p.T.Concat(ts...)
}

func (d *jdec) dec(t types.Type, q Ptr) {
	p := d.p
	if isTime(t) {
		d.decTime(t, q)
		return
	}
	if isRaw(t) {
		d.ws()
		st := d.pos
		d.skip()
		p.store(q, p.mkBytes(d.in[st:d.pos]))
		return
	}
	if pt, isP := under(t).(*types.Pointer); isP {
		if d.null() {
			p.store(q, nilPtr)
			return
		}
		cur, _ := p.load(q).(Ptr)
		if cur.isNil() {
			cur = Ptr{p.newObj(pt.Elem(), p.zero(pt.Elem())), -1, nil, 0}
			p.store(q, cur)
		}
		d.dec(pt.Elem(), cur)
		return
	}
	if _, isI := under(t).(*types.Interface); !isI {
		ptr := types.NewPointer(t)
		if f := hasMethod(p, ptr, "UnmarshalJSON", 1, 1); f != nil {
			d.ws()
			st := d.pos
			d.skip()
			r := p.callFn(f, []Value{d.whole(q, t), p.mkBytes(d.in[st:d.pos])}, nil).(Iface)
			if r.t != nil {
				panic(jsonErr{r})
			}
			return
		}
		if f := hasMethod(p, ptr, "UnmarshalText", 1, 1); f != nil {
			if d.null() {
				if d.std {
					return
				}
				r := p.callFn(f, []Value{d.whole(q, t), p.mkBytes(nil)}, nil).(Iface)
				if r.t != nil {
					panic(jsonErr{r})
				}
				return
			}
			s := d.str()
			r := p.callFn(f, []Value{d.whole(q, t), p.mkBytes(s)}, nil).(Iface)
			if r.t != nil {
				panic(jsonErr{r})
			}
			return
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if d.null() {
			if u.Info()&types.IsString != 0 && !d.std {
				p.store(q, Str{})
			}
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			p.store(q, p.mkStr(d.str()))
		case u.Info()&types.IsBoolean != 0:
			d.ws()
			switch {
			case d.is('t'):
				d.word("true")
				p.store(q, p.T.True)
			case d.is('f'):
				d.word("false")
				p.store(q, p.T.False)
			default:
				d.fail("expected a bool")
			}
		case u.Info()&types.IsInteger != 0:
			w, sg, _ := intWidth(t)
			tk, s := d.number()
			if tk != nil {
				if w < 64 {
					x := p.T.Extract(tk, w-1, 0)
					var back *Term
					if sg {
						back = p.T.Sext(x, 64)
					} else {
						back = p.T.Zext(x, 64)
					}
					if !p.Branch(p.T.Eq(back, tk)) {
						d.fail("number out of range")
					}
					tk = x
				}
				p.store(q, tk)
				return
			}
			b, ok := new(big.Int).SetString(s, 10)
			if !ok || (s[0] == '0' && len(s) > 1) || s[0] == '+' {
				d.fail("bad number")
			}
			lo, hi := new(big.Int), new(big.Int)
			if sg {
				hi.Sub(hi.Lsh(big.NewInt(1), uint(w-1)), big.NewInt(1))
				lo.Neg(new(big.Int).Lsh(big.NewInt(1), uint(w-1)))
			} else {
				hi.Sub(hi.Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
			}
			if b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
				d.fail("number out of range")
			}
			if b.Sign() < 0 {
				p.store(q, p.T.BV(w, uint64(b.Int64())&mask(w)))
			} else {
				p.store(q, p.T.BV(w, b.Uint64()))
			}
		case u.Info()&types.IsFloat != 0:
			tk, s := d.number()
			if tk != nil {
				p.unsupported("symbolic number into float")
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				d.fail("bad float")
			}
			p.store(q, F64(f))
		default:
			d.fail("unsupported type")
		}
	case *types.Slice:
		if d.null() {
			p.store(q, Slice{})
			return
		}
		if isByteSlice(t) && d.is('"') {
			out, ok := p.b64Decode(d.str(), 0, true)
			if !ok {
				d.fail("illegal base64 data")
			}
			p.store(q, p.mkBytes(out))
			return
		}
		d.expect('[')
		var vals []Value
		d.ws()
		if d.is(']') {
			d.pos++
		} else {
			for {
				o := p.newObj(u.Elem(), p.zero(u.Elem()))
				d.dec(u.Elem(), Ptr{o, -1, nil, 0})
				vals = append(vals, p.loadObj(o))
				d.ws()
				if d.is(',') {
					d.pos++
					continue
				}
				d.expect(']')
				break
			}
		}
		arr := p.newArr(u.Elem(), len(vals))
		for i, v := range vals {
			p.store(elemPtr(arr, i), v)
		}
		p.store(q, Slice{arr, 0, len(vals), len(vals)})
	case *types.Array:
		if d.null() {
			return
		}
		d.expect('[')
		av := append(ArrayV(nil), p.load(q).(ArrayV)...)
		i := 0
		d.ws()
		if d.is(']') {
			d.pos++
		} else {
			for {
				if i < len(av) {
					o := p.newObj(u.Elem(), p.zero(u.Elem()))
					d.dec(u.Elem(), Ptr{o, -1, nil, 0})
					av[i] = p.loadObj(o)
				} else {
					d.skip()
				}
				i++
				d.ws()
				if d.is(',') {
					d.pos++
					continue
				}
				d.expect(']')
				break
			}
		}
		p.store(q, av)
	case *types.Map:
		if d.null() {
			p.store(q, (*MapObj)(nil))
			return
		}
		d.expect('{')
		m, _ := p.load(q).(*MapObj)
		if m == nil {
			m = p.newMap(u)
			p.store(q, m)
		}
		d.ws()
		if d.is('}') {
			d.pos++
			return
		}
		for {
			k := d.key(u.Key())
			d.expect(':')
			o := p.newObj(u.Elem(), p.zero(u.Elem()))
			d.dec(u.Elem(), Ptr{o, -1, nil, 0})
			p.mapSet(m, k, p.loadObj(o))
			d.ws()
			if d.is(',') {
				d.pos++
				d.ws()
				continue
			}
			d.expect('}')
			return
		}
	case *types.Struct:
		if d.null() {
			return
		}
		fields := jsonFields(u, nil)
		if len(fields) == 0 && !d.std {
			d.ws()
			if !d.is('{') {
				d.fail("expected an object")
			}
			d.skip()
			return
		}
		d.expect('{')
		d.ws()
		if d.is('}') {
			d.pos++
			return
		}
		for {
			name := d.str()
			d.expect(':')
			if f := d.field(fields, name); f != nil {
				fp := d.whole(q, t)
				ft := types.Type(t)
				for _, i := range f.path {
					if fp.o.kind != oStruct {
						p.unsupported("json: embedded pointer")
					}
					fp = Ptr{fp.o.kids[i], -1, nil, 0}
					_ = ft
				}
				d.dec(f.t, fp)
			} else {
				d.skip()
			}
			d.ws()
			if d.is(',') {
				d.pos++
				d.ws()
				continue
			}
			d.expect('}')
			return
		}
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.fail("cannot unmarshal into non-empty interface")
		}
		p.store(q, d.any())
	default:
		d.fail("unsupported type " + t.String())
	}
}

func (d *jdec) whole(q Ptr, t types.Type) Ptr {
	if q.idx >= 0 && q.o.kind != oArr {
		return Ptr{q.o.kids[q.idx], -1, nil, 0}
	}
	return q
}

func lowerASCII(s string) string { return strings.ToLower(s) }

func (d *jdec) field(fs []jfield, name []*Term) *jfield {
	p := d.p
	s := p.mkStr(name)
	if s.b == nil {
		for i := range fs {
			if fs[i].name == s.s {
				return &fs[i]
			}
		}
		for i := range fs {
			if lowerASCII(fs[i].name) == lowerASCII(s.s) {
				return &fs[i]
			}
		}
		return nil
	}
	for i := range fs {
		f := fs[i].name
		if len(f) != len(name) {
			continue
		}
		var cs []*Term
		for k := range name {
			lo, up := strings.ToLower(f[k : k+1])[0], strings.ToUpper(f[k : k+1])[0]
			cs = append(cs, p.T.Or(p.T.Eq(name[k], p.T.BV(8, uint64(lo))), p.T.Eq(name[k], p.T.BV(8, uint64(up)))))
		}
		if p.Branch(p.T.And(cs...)) {
			return &fs[i]
		}
	}
	return nil
}

func (d *jdec) key(kt types.Type) Value {
	p := d.p
	ptr := types.NewPointer(kt)
	s := d.str()
	if f := hasMethod(p, ptr, "UnmarshalText", 1, 1); f != nil {
		o := p.newObj(kt, p.zero(kt))
		q := Ptr{o, -1, nil, 0}
		r := p.callFn(f, []Value{q, p.mkBytes(s)}, nil).(Iface)
		if r.t != nil {
			panic(jsonErr{r})
		}
		return p.loadObj(o)
	}
	b, ok := under(kt).(*types.Basic)
	if ok && b.Info()&types.IsString != 0 {
		return p.mkStr(s)
	}
	if ok && b.Info()&types.IsInteger != 0 {
		sub := &jdec{p: p, in: s, std: d.std}
		o := p.newObj(kt, p.zero(kt))
		sub.dec(kt, Ptr{o, -1, nil, 0})
		return p.loadObj(o)
	}
	d.fail("unsupported map key type")
	return nil
}

func (d *jdec) any() Value {
	p := d.p
	d.ws()
	if d.eof() {
		d.fail("unexpected end of input")
	}
	if d.in[d.pos].op == OTok {
		p.unsupported("json: symbolic number into interface")
	}
	switch {
	case d.is('"'):
		return Iface{types.Typ[types.String], p.mkStr(d.str())}
	case d.is('n'):
		d.word("null")
		return Iface{}
	case d.is('t'):
		d.word("true")
		return Iface{types.Typ[types.Bool], p.T.True}
	case d.is('f'):
		d.word("false")
		return Iface{types.Typ[types.Bool], p.T.False}
	case d.is('{'):
		mt := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
		o := p.newObj(mt, (*MapObj)(nil))
		d.dec(mt, Ptr{o, -1, nil, 0})
		return Iface{mt, p.loadObj(o)}
	case d.is('['):
		st := types.NewSlice(types.NewInterfaceType(nil, nil))
		o := p.newObj(st, Slice{})
		d.dec(st, Ptr{o, -1, nil, 0})
		return Iface{st, p.loadObj(o)}
	}
	_, s := d.number()
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		d.fail("bad number")
	}
	return Iface{types.Typ[types.Float64], F64(f)}
}

func (d *jdec) decTime(t types.Type, q Ptr) {
	p := d.p
	if d.null() {
		return
	}
	if !d.is('"') {
		d.skip()
		d.fail("Time.UnmarshalJSON: input is not a JSON string")
	}
	s := d.str()
	if len(s) == 12 && s[0].op == OTok {
		sub := &jdec{p: p, in: s}
		x := sub.tok(2, 12)
		sec := p.T.Extract(x, 95, 32)
		ns := p.T.Zext(p.T.Extract(x, 31, 0), 64)
		u := p.callFn(p.w.eng.mustFn(p, "time.Unix"), []Value{sec, ns}, nil)
		u = p.callFn(p.w.eng.methodByName(t, "UTC"), []Value{u}, nil)
		p.store(q, u)
		return
	}
	for _, c := range s {
		if c.op == OTok {
			p.unsupported("json: spliced time token")
		}
	}
	str := p.mkStr(s)
	if str.b != nil {
		if len(s) < 20 {
			d.fail("bad time")
		}
		p.unsupported("json: symbolic time text")
	}
	var tm time.Time
	if err := tm.UnmarshalJSON([]byte("\"" + str.s + "\"")); err != nil {
		d.fail("bad time")
	}
	u := p.callFn(p.w.eng.mustFn(p, "time.Unix"), []Value{p.T.BV(64, uint64(tm.Unix())), p.T.BV(64, uint64(tm.Nanosecond()))}, nil)
	if _, off := tm.Zone(); off == 0 {
		u = p.callFn(p.w.eng.methodByName(t, "UTC"), []Value{u}, nil)
	} else {
		z := p.callFn(p.w.eng.mustFn(p, "time.FixedZone"), []Value{Str{s: ""}, p.T.BV(64, uint64(off))}, nil)
		u = p.callFn(p.w.eng.methodByName(t, "In"), []Value{u, z}, nil)
	}
	p.store(q, u)
}
