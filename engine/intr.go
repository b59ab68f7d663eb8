package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(p *Path, fn *ssa.Function, a []Value) Value

type hashRec struct {
	in, out *Term
	n       int
}

// mark for intrinsics that decide to fall through to the real body
type fallThrough struct{}

var fnNames sync.Map

func fnName(fn *ssa.Function) string {
	if n, ok := fnNames.Load(fn); ok {
		return n.(string)
	}
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	fnNames.Store(fn, n)
	return n
}

func (p *Path) intrinsic(fn *ssa.Function, args []Value, binds []Value) (Value, bool) {
	e := p.w.eng
	name := fnName(fn)
	if f, ok := e.intr[name]; ok {
		r := f(p, fn, args)
		if _, ft := r.(fallThrough); !ft {
			return r, true
		}
	}
	if m := e.models[name]; m != nil && !p.inModel() && !(p.realLog && strings.Contains(name, "github.com/rs/zerolog.")) {
		return p.callFn(m, args, nil), true
	}
	if fn.Synthetic == "package initializer" || (fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn == fn.Pkg.Func("init")) {
		if !e.isPathPkg(fn.Pkg.Pkg.Path()) {
			return nil, true
		}
	}
	if fn.Pkg != nil {
		if nopPkgs[fn.Pkg.Pkg.Path()] {
			return p.zeroResults(fn), true
		}
	}
	return nil, false
}

var nopPkgs = map[string]bool{"internal/race": true, "internal/msan": true, "internal/asan": true, "internal/godebug": true}

func (p *Path) inModel() bool {
	if n := len(p.cur.frames); n > 0 {
		f := p.cur.frames[n-1].fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), harnessMod+"/model")
		}
	}
	return false
}

func (p *Path) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(res.At(0).Type())
	}
	return p.zero(res)
}

func (p *Path) i64(n int) *Term { return p.T.BV(64, uint64(int64(n))) }

func (p *Path) constStr(v Value) string {
	s := v.(Str)
	if s.b != nil {
		p.unsupported("symbolic name")
	}
	return s.s
}

func (p *Path) constInt(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		return int(int64(p.Conc(t)))
	}
	return int(t.sval())
}

func (p *Path) bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case Slice:
		return p.sliceBytes(x)
	case Str:
		return p.strBytes(x)
	}
	p.unsupported(fmt.Sprintf("bytes of %T", v))
	return nil
}

func (p *Path) mkErr(msg string) Iface {
	return p.mkErrStr(Str{s: msg})
}

func (p *Path) mkErrStr(s Str) Iface {
	es := p.w.eng.pkgs["errors"].Type("errorString").Type()
	o := p.newObj(es, StructV{s})
	return Iface{types.NewPointer(es), Ptr{o, -1, nil, 0}}
}

var nilIface = Iface{}

func buildIntrinsics() map[string]intrinsicFn {
	m := map[string]intrinsicFn{}
	nop := func(p *Path, fn *ssa.Function, a []Value) Value { return p.zeroResults(fn) }

	// ---- nd ----
	m["verif/nd.Native"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.T.False }
	m["verif/nd.Symbolic"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.T.True }
	m["verif/nd.Tier"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if p.w.run == nil {
			return p.i64(0)
		}
		return p.i64(p.w.run.tier)
	}
	m["verif/nd.Byte"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.freshBytes(p.constStr(a[0]), 1, true)[0]
	}
	m["verif/nd.Bool"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		b := p.freshBytes(p.constStr(a[0]), 1, true)[0]
		p.Assume(p.T.Ule(b, p.T.BV(8, 1)))
		return p.T.Eq(b, p.T.BV(8, 1))
	}
	m["verif/nd.Uint64"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.T.Concat(p.freshBytes(p.constStr(a[0]), 8, true)...)
	}
	m["verif/nd.Bytes"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.mkBytes(p.freshBytes(p.constStr(a[0]), p.constInt(a[1]), true))
	}
	m["verif/nd.String"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.mkStr(p.freshBytes(p.constStr(a[0]), p.constInt(a[1]), true))
	}
	m["verif/nd.Choose"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.constInt(a[1])
		if n <= 0 {
			panic(&pathAbort{"assume", ""})
		}
		k := p.Choice(n)
		p.inputs = append(p.inputs, Input{Name: p.constStr(a[0]), Kind: "choice", Val: int64(k)})
		return p.i64(k)
	}
	m["verif/nd.Assume"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.Assume(a[0].(*Term))
		return nil
	}
	m["verif/nd.Assert"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.assert(a[0].(*Term), p.constStr(a[1]), "")
		return nil
	}
	m["verif/nd.Known"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		// Known(kf, cond, expected, msg)
		c, ex := a[1].(*Term), a[2].(*Term)
		if p.Branch(ex) {
			p.assert(c, p.constStr(a[3]), p.constStr(a[0]))
		} else {
			p.assert(c, p.constStr(a[3]), "")
		}
		return nil
	}
	m["verif/nd.Reach"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s := p.constStr(a[0])
		p.reached[s] = true
		p.reachOrd = append(p.reachOrd, s)
		return nil
	}
	m["verif/nd.Stop"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		panic(&pathAbort{"done", ""})
	}
	m["verif/nd.Unsupported"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.unsupported(p.constStr(a[0]))
		return nil
	}
	m["verif/nd.Fresh"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.mkBytes(p.uniqueFresh(p.constStr(a[0]), p.constInt(a[1])))
	}
	m["verif/nd.ResetFresh"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		for k := range p.freshN {
			if strings.HasPrefix(k, "f:") && !strings.HasPrefix(k, "f:hash:pub:") {
				delete(p.freshN, k)
			}
		}
		p.uniq = map[int][]*Term{}
		for k := range p.hashes {
			if !strings.HasPrefix(k, "pub:") {
				delete(p.hashes, k)
			}
		}
		p.aes = nil
		p.inputs = append(p.inputs, Input{Name: "reset", Kind: "fresh", Val: -1})
		return nil
	}
	m["verif/nd.Hash"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.mkBytes(p.idealHash(p.constStr(a[0]), p.bytesOf(a[1]), p.constInt(a[2])))
	}
	m["verif/nd.AESEnc"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.aesUF(true, a[0], a[1]) }
	m["verif/nd.AESDec"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.aesUF(false, a[0], a[1]) }
	m["verif/nd.Eq"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.T.EqBytesLen(p.bytesOf(a[0]), p.bytesOf(a[1]))
	}
	m["verif/nd.EqStr"] = m["verif/nd.Eq"]
	m["verif/nd.And"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		var ts []*Term
		for _, v := range p.sliceVals(a[0].(Slice)) {
			ts = append(ts, v.(*Term))
		}
		return p.T.And(ts...)
	}
	m["verif/nd.Or"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		var ts []*Term
		for _, v := range p.sliceVals(a[0].(Slice)) {
			ts = append(ts, v.(*Term))
		}
		return p.T.Or(ts...)
	}
	m["verif/nd.Not"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.T.Not(a[0].(*Term)) }
	m["verif/nd.Same"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		same := len(x) == len(y)
		for i := 0; same && i < len(x); i++ {
			same = x[i] == y[i]
		}
		return p.T.Bool(same)
	}
	m["verif/nd.Find"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
	next:
		for i := 0; i+len(y) <= len(x); i++ {
			for j := range y {
				if x[i+j] != y[j] {
					continue next
				}
			}
			return p.T.BV(64, uint64(i))
		}
		return p.T.BV(64, ^uint64(0))
	}
	m["verif/nd.Plain"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		for _, b := range p.bytesOf(a[0]) {
			p.Assume(p.T.Plain(b))
		}
		return nil
	}
	m["verif/nd.Yield"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.yield()
		return nil
	}
	m["verif/nd.Acquire"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.acquire(lockKey(a[0]))
		return nil
	}
	m["verif/nd.Release"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.release(lockKey(a[0]))
		return nil
	}
	m["verif/nd.Fine"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if p.opts.fine {
			p.yield()
		}
		return nil
	}
	m["verif/nd.WaitUntil"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		f := a[0].(*FuncV)
		p.blockUntil(func() bool {
			r := p.callValue(f, nil, nil).(*Term)
			return p.Branch(r)
		})
		return nil
	}
	m["verif/nd.Par"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		var fs []func()
		for _, v := range p.sliceVals(a[0].(Slice)) {
			f := v.(*FuncV)
			fs = append(fs, func() { p.callValue(f, nil, nil) })
		}
		p.par(fs)
		return nil
	}
	m["verif/nd.MapOrder"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.opts.mapOrder = p.Branch(a[0].(*Term))
		return nil
	}
	m["verif/nd.SetPreempt"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.opts.preempt = p.constInt(a[0])
		p.opts.fine = p.Branch(a[1].(*Term))
		return nil
	}
	m["verif/nd.Ideal"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.T.True }
	m["verif/nd.Opt"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		switch s := p.constStr(a[0]); s {
		case "long":
			p.opts.maxSteps = 200_000_000
		case "aesuf":
			p.aesPlain = true
		case "logs":
			p.realLog = true
		default:
			p.unsupported("option " + s)
		}
		return nil
	}
	m["verif/nd.Log"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		if os.Getenv("GOSYM_LOG") != "" {
			fmt.Fprintln(os.Stderr, "LOG", p.logStr(a), p.where())
		}
		return nil
	}
	m["verif/nd.TempDir"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		p.tempDirs++
		return Str{s: fmt.Sprintf("/scratch%d", p.tempDirs)}
	}
	m["verif/nd.Skip"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		panic(&pathAbort{"assume", ""})
	}

	// ---- runtime and friends ----
	for _, n := range []string{"runtime.KeepAlive", "runtime.Gosched", "runtime.GC", "runtime.SetFinalizer",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*strings.Builder).copyCheck", "runtime.AddCleanup",
		"crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved",
		"runtime/debug.SetGCPercent", "(*sync.Pool).Put", "crypto/internal/fips140only.Enforced", "time.Sleep"} {
		m[n] = nop
	}
	for _, n := range []string{"os.Getpagesize", "syscall.Getpagesize", "syscall.runtime_getpagesize"} {
		m[n] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.T.BV(64, 4096) }
	}
	m["github.com/rs/zerolog.isNilValue"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].(Iface)
		if !ok || i.t == nil {
			return p.T.True
		}
		switch i.t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			return p.valueEqT(i.v, p.zero(i.t), i.t, i.t)
		}
		return p.T.False
	}
	m["(*sync.Pool).Get"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		q := a[0].(Ptr)
		st := under(q.o.typ).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f, _ := q.o.kids[i].v.(*FuncV)
				if f == nil {
					return nilIface
				}
				return p.callValue(f, nil, nil)
			}
		}
		return nilIface
	}
	m["(*sync.Once).Do"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		q := a[0].(Ptr)
		if p.once == nil {
			p.once = map[*Obj]bool{}
		}
		if !p.once[q.o] {
			p.once[q.o] = true
			p.callValue(a[1].(*FuncV), nil, nil)
		}
		return nil
	}
	m["time.runtimeNano"] = func(p *Path, fn *ssa.Function, a []Value) Value { return p.i64(1) }
	m["time.runtimeNow"] = nop
	m["time.runtimeIsBubbled"] = nop
	m["internal/abi.NoEscape"] = func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] }
	m["internal/abi.Escape"] = func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] }
	m["internal/bytealg.MakeNoZero"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.constInt(a[0])
		return Slice{p.newArr(types.Typ[types.Uint8], n), 0, n, n}
	}
	eq := func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.T.EqBytesLen(p.bytesOf(a[0]), p.bytesOf(a[1]))
	}
	m["bytes.Equal"] = eq
	m["internal/bytealg.Equal"] = eq
	m["internal/stringslite.HasPrefix"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.bytesOf(a[0]), p.bytesOf(a[1])
		if len(x) < len(y) {
			return p.T.False
		}
		return p.T.EqBytesLen(x[:len(y)], y)
	}
	m["strings.HasPrefix"] = m["internal/stringslite.HasPrefix"]
	m["bytes.HasPrefix"] = m["internal/stringslite.HasPrefix"]
	cmpf := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := p.mkStr(p.bytesOf(a[0])), p.mkStr(p.bytesOf(a[1]))
		lt := p.strLess(x, y)
		e := p.strEq(x, y)
		return p.T.Ite(e, p.i64(0), p.T.Ite(lt, p.i64(-1), p.i64(1)))
	}
	for _, n := range []string{"bytes.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring"} {
		m[n] = cmpf
	}
	idx := func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[1].(*Term)
		for i, b := range p.bytesOf(a[0]) {
			if p.Branch(p.T.Eq(b, c)) {
				return p.i64(i)
			}
		}
		return p.i64(-1)
	}
	m["internal/bytealg.IndexByte"] = idx
	m["internal/bytealg.IndexByteString"] = idx
	lidx := func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[1].(*Term)
		bs := p.bytesOf(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if p.Branch(p.T.Eq(bs[i], c)) {
				return p.i64(i)
			}
		}
		return p.i64(-1)
	}
	m["internal/bytealg.LastIndexByte"] = lidx
	m["internal/bytealg.LastIndexByteString"] = lidx
	cnt := func(p *Path, fn *ssa.Function, a []Value) Value {
		c := a[1].(*Term)
		n := p.i64(0)
		for _, b := range p.bytesOf(a[0]) {
			n = p.T.Add(n, p.T.Ite(p.T.Eq(b, c), p.i64(1), p.i64(0)))
		}
		return n
	}
	m["internal/bytealg.Count"] = cnt
	m["internal/bytealg.CountString"] = cnt
	m["crypto/subtle.ConstantTimeCompare"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.T.Ite(p.T.EqBytesLen(p.bytesOf(a[0]), p.bytesOf(a[1])), p.i64(1), p.i64(0))
	}
	m["crypto/internal/fips140/subtle.ConstantTimeCompare"] = m["crypto/subtle.ConstantTimeCompare"]
	m["crypto/hmac.Equal"] = eq
	xorb := func(p *Path, fn *ssa.Function, a []Value) Value {
		d, x, y := a[0].(Slice), p.bytesOf(a[1]), p.bytesOf(a[2])
		n := min(len(x), len(y))
		if d.ln < n {
			p.goPanicStr("subtle.XORBytes: dst too short")
		}
		for i := 0; i < n; i++ {
			p.store(elemPtr(d.o, d.off+i), p.T.BXor(x[i], y[i]))
		}
		return p.i64(n)
	}
	m["crypto/subtle.XORBytes"] = xorb
	m["crypto/internal/fips140/subtle.XORBytes"] = xorb
	m["errors.Is"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.T.Bool(p.errorsIs(a[0].(Iface), a[1].(Iface)))
	}
	m["context.WithValue"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		vt := p.w.eng.pkgs["context"].Type("valueCtx").Type()
		o := p.newObj(vt, StructV{a[0], a[1], a[2]})
		return Iface{types.NewPointer(vt), Ptr{o, -1, nil, 0}}
	}
	m["crypto/rand.Read"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		for i, t := range p.uniqueFresh("f:rand", s.ln) {
			p.store(elemPtr(s.o, s.off+i), t)
		}
		return Tuple{p.i64(s.ln), nilIface}
	}
	m["(*crypto/rand.reader).Read"] = func(p *Path, fn *ssa.Function, a []Value) Value {
		return m["crypto/rand.Read"](p, fn, a[1:])
	}
	addAtomics(m)
	addStd(m)
	addJSONStreams(m)
	addFmt(m)
	addBase64(m)
	addJSON(m)
	return m
}

func (T *TermTable) EqBytesLen(a, b []*Term) *Term {
	if len(a) != len(b) {
		return T.False
	}
	return T.EqBytes(a, b)
}

func (p *Path) assert(c *Term, msg, kf string) {
	p.nAsserts++
	if v, ok := p.known(c); ok && v {
		return
	}
	if p.pos < len(p.prefix) && c.op != OConst {
		// this assertion was already decided by the run that pushed the prefix... it was decided on that
		// path with the same path condition, so only the assumption has to be repeated
		if v, ok := p.known(c); ok && !v {
			panic(&pathAbort{"violation", msg})
		}
		p.addPC(c)
		return
	}
	if v, ok := p.known(c); ok && !v {
		p.violation(p.T.True, msg, kf)
		panic(&pathAbort{"violation", msg})
	}
	nc := p.T.Not(c)
	r, _ := p.w.solver.Check(p.pc, nc, nil)
	switch r {
	case Unsat:
		p.learn(c)
		return
	case Unknown:
		p.w.run.noteIncomplete("solver-unknown", "assertion undecided: "+msg+p.where())
		p.addPC(c)
		return
	}
	p.violation(nc, msg, kf)
	// continue under the assumption that the assertion holds, if that is possible
	if p.check(c) == Unsat {
		panic(&pathAbort{"violation", msg})
	}
	p.addPC(c)
}

// idealHash: a collision-free random function per domain.
func (p *Path) idealHash(domain string, in []*Term, n int) []*Term {
	if n == 0 {
		return nil
	}
	key := fmt.Sprintf("%s/%d", domain, n)
	var it *Term
	if len(in) > 0 {
		it = p.T.Concat(in...)
	} else {
		it = p.T.True
	}
	for _, r := range p.hashes[key] {
		if r.in == it {
			p.inputs = append(p.inputs, Input{Name: "f:hash:" + domain, Kind: "fresh", T: r.out})
			return p.splitBytes(r.out, n)
		}
	}
	out := p.freshBytes("f:hash:"+domain, n, false)
	ot := p.T.Concat(out...)
	p.inputs = append(p.inputs, Input{Name: "f:hash:" + domain, Kind: "fresh", T: ot})
	for _, r := range p.hashes[key] {
		if r.in.w != it.w || it.w == 0 {
			p.differ(ot, r.out)
			continue
		}
		e := p.T.Eq(it, r.in)
		if v, ok := p.known(e); ok {
			if v {
				p.addPC(p.T.Eq(ot, r.out))
			} else {
				p.differ(ot, r.out)
			}
			continue
		}
		oe := p.T.Eq(ot, r.out)
		p.addPC(p.T.Or(p.T.And(e, oe), p.T.And(p.T.Not(e), p.T.Not(oe))))
	}
	// outputs of other domains and ideal random values differ as well
	if n >= 8 {
		for k, rs := range p.hashes {
			if k == key || !strings.HasSuffix(k, fmt.Sprintf("/%d", n)) {
				continue
			}
			for _, r := range rs {
				p.differ(ot, r.out)
			}
		}
		for _, o := range p.uniq[n] {
			p.differ(ot, o)
		}
	}
	p.hashes[key] = append(p.hashes[key], hashRec{it, ot, n})
	return out
}

func (p *Path) splitBytes(t *Term, n int) []*Term {
	out := make([]*Term, n)
	for i := range out {
		out[i] = p.T.Extract(t, 8*(n-i)-1, 8*(n-i-1))
	}
	return out
}

type aesRec struct {
	k, x, y *Term
}

// aesUF: the block cipher, as uninterpreted permutations (option "aesuf") or as an ideal cipher.
func (p *Path) aesUF(enc bool, key, blk Value) Value {
	kb, bb := p.bytesOf(key), p.bytesOf(blk)
	k, b := p.T.Concat(kb...), p.T.Concat(bb...)
	var t *Term
	if p.aesPlain {
		en, dn := fmt.Sprintf("aesE%d", k.w), fmt.Sprintf("aesD%d", k.w)
		if !enc {
			en, dn = dn, en
		}
		if b.op == OUF && b.name == dn && b.args[0] == k {
			t = b.args[1]
		} else {
			t = p.T.UF(en, 128, k, b)
			if _, ok := p.T.lemmas[t.id]; !ok {
				// D(k, E(k,x)) = x
				p.T.lemmas[t.id] = p.T.Eq(p.T.UF(dn, 128, k, t), b)
			}
		}
	} else {
		t = p.aesIdeal(enc, k, b)
	}
	p.inputs = append(p.inputs, Input{Name: "f:aes", Kind: "fresh", T: t})
	return p.mkBytes(p.splitBytes(t, 16))
}

// aesIdeal: outputs are ideal random values. Decrypting something that never came out of an encryption gives a random
// block, which is assumed not to start with the integrity prefix of AES-KWP and not to lead, in the next rounds, to a
// block that did come out of an encryption.
func (p *Path) aesIdeal(enc bool, k, b *Term) *Term {
	for _, r := range p.aes {
		if r.k == k {
			if enc && r.x == b {
				return r.y
			}
			if !enc && r.y == b {
				return r.x
			}
		}
	}
	if !enc && !p.randomHalf(b) {
		var cs []*Term
		var rs []aesRec
		// The adversary does not know the values between the rounds of the key wrap: a block matches the encryption
		// whose left half it carries, and a block with an unknown left half can only match an encryption whose output
		// left the chain.
		top := func(t *Term) *Term { return p.T.Extract(t, 127, 120) }
		lb := top(b)
		chained := map[*Term]bool{}
		carried := false
		for _, r := range p.aes {
			chained[top(r.x)] = true
			carried = carried || top(r.y) == lb
		}
		for _, r := range p.aes {
			if carried && top(r.y) != lb || !carried && chained[top(r.y)] {
				continue
			}
			c := p.T.Eq(r.k, k)
			if v, ok := p.known(c); r.k.w != k.w || ok && !v {
				continue
			}
			c = p.T.And(c, p.T.Eq(r.y, b))
			if v, ok := p.known(c); ok && !v {
				continue
			}
			cs = append(cs, c)
			rs = append(rs, r)
		}
		if os.Getenv("GOSYM_AES") != "" && len(cs) > 0 {
			fmt.Fprintln(os.Stderr, "AES semantic lookup of", b.String(), len(cs), "candidates; last y", rs[len(rs)-1].y.String(), p.where())
		}
		if len(cs) > 0 && p.Branch(p.T.Or(cs...)) {
			for i, r := range rs {
				if i == len(rs)-1 || p.Branch(cs[i]) {
					return r.x
				}
			}
		}
	}
	t := p.T.Concat(p.freshBytes("f:aes", 16, false)...)
	r := aesRec{k, b, t}
	if !enc {
		r = aesRec{k, t, b}
		if p.aesRandom == nil {
			p.aesRandom = map[int]bool{}
		}
		p.aesRandom[t.id] = true
		p.assumeModel(p.T.Not(p.T.Eq(p.T.Extract(t, 127, 96), p.T.BV(32, 0xA65959A6))))
	}
	p.aes = append(p.aes, r)
	return t
}

// randomHalf: does the first half of the block come from a random decryption (up to constants)?
func (p *Path) randomHalf(b *Term) bool {
	if len(p.aesRandom) == 0 {
		return false
	}
	return p.fromRandom(p.T.Extract(b, 127, 120))
}

func (p *Path) fromRandom(t *Term) bool {
	for d := 0; d < 20; d++ {
		if p.aesRandom[t.id] {
			return true
		}
		var n *Term
		for _, a := range t.args {
			if !a.isConst() && n == nil {
				n = a
			}
		}
		if n == nil {
			return false
		}
		t = n
	}
	return false
}

func (p *Path) errorsIs(err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for depth := 0; depth < 50; depth++ {
		if err.t == nil {
			return false
		}
		if types.Identical(err.t, target.t) && types.Comparable(err.t) && p.Branch(p.valueEq(err, target)) {
			return true
		}
		if _, ok := err.v.(*Native); ok {
			return false
		}
		if f := p.w.eng.methodByName(err.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if p.Branch(p.callFn(f, []Value{err.v, target}, nil).(*Term)) {
				return true
			}
		}
		f := p.w.eng.methodByName(err.t, "Unwrap")
		if f == nil {
			return false
		}
		r := p.callFn(f, []Value{err.v}, nil)
		switch x := r.(type) {
		case Iface:
			err = x
		case Slice:
			for _, v := range p.sliceVals(x) {
				if p.errorsIs(v.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func addAtomics(m map[string]intrinsicFn) {
	set := func(n string, f intrinsicFn) {
		m["sync/atomic."+n] = func(p *Path, fn *ssa.Function, a []Value) Value {
			k := lockKey(a[0])
			p.acquire(k)
			p.cur.norace = true
			defer func() { p.cur.norace = false }()
			v := f(p, fn, a)
			p.release(k)
			return v
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		set("Load"+t, func(p *Path, fn *ssa.Function, a []Value) Value { return p.load(a[0].(Ptr)) })
		set("Store"+t, func(p *Path, fn *ssa.Function, a []Value) Value { p.store(a[0].(Ptr), a[1]); return nil })
		set("Swap"+t, func(p *Path, fn *ssa.Function, a []Value) Value {
			o := p.load(a[0].(Ptr))
			p.store(a[0].(Ptr), a[1])
			return o
		})
		set("Add"+t, func(p *Path, fn *ssa.Function, a []Value) Value {
			n := p.T.Add(p.load(a[0].(Ptr)).(*Term), a[1].(*Term))
			p.store(a[0].(Ptr), n)
			return n
		})
		set("CompareAndSwap"+t, func(p *Path, fn *ssa.Function, a []Value) Value {
			if p.Branch(p.valueEq(p.load(a[0].(Ptr)), a[1])) {
				p.store(a[0].(Ptr), a[2])
				return p.T.True
			}
			return p.T.False
		})
	}
}

func (p *Path) nativeMethod(n *Native, name string, args []Value) Value {
	switch n.kind {
	case "jsoniter":
		return p.jsonAPI(n, name, args)
	}
	p.unsupported("method " + name + " on native " + n.kind)
	return nil
}

func (p *Path) nativeImplements(n *Native, it *types.Interface) bool { return n.kind == "jsoniter" }

// logStr renders the arguments of nd.Log, errors through their dynamic type.
func (p *Path) logStr(a []Value) string {
	out := ""
	for _, x := range a {
		if s, ok := x.(Slice); ok && s.o != nil {
			for i := 0; i < s.ln; i++ {
				out += fmt.Sprintf(" %s", p.showVal(s.o.vals, s.o.kids, s.off+i))
			}
		}
	}
	return out
}

func (p *Path) showVal(vals []Value, kids []*Obj, i int) string {
	if i >= len(vals) {
		return "?"
	}
	v, ok := vals[i].(Iface)
	if !ok {
		return fmt.Sprintf("%v", vals[i])
	}
	if v.t == nil {
		return "nil"
	}
	if q, ok := v.v.(Ptr); ok && q.o != nil {
		for _, k := range q.o.kids {
			if s, ok := k.v.(Str); ok {
				return v.t.String() + ": " + s.s
			}
		}
	}
	return fmt.Sprintf("%s %v", v.t, v.v)
}
