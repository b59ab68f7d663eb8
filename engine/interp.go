package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type pathAbort struct {
	kind string // "assume", "unsupported", "bound", "violation", "done"
	msg  string
}

type goPanic struct {
	v       Iface
	runtime bool
}

type Input struct {
	Name string
	T    *Term
	Kind string // "bv", "choice", "fresh"
	Val  int64  // for choices
}

type Thread struct {
	id     int
	wake   chan struct{}
	done   bool
	block  func() bool // non-nil: blocked until true
	abort  *pathAbort
	pan    *goPanic
	depth  int
	frames []*Frame
	vc     vclock
	norace bool // the current access is an atomic one
	dirty  bool // did something other threads can notice since the last scheduling point
}

type Path struct {
	probe     bool
	gen       int64
	w         *Worker
	T         *TermTable
	prefix    []int
	pos       int
	decs      []int
	pc        []*Term
	facts     map[int]bool
	inputs    []Input
	globals   map[*ssa.Global]*Obj
	objN      int
	steps     int
	freshN    map[string]int
	uniqPC    map[int]bool    // these constraints
	uniq      map[int][]*Term // fresh >=8 byte vectors by width, for pairwise distinctness
	sticky    map[*Obj]Value
	threads   []*Thread
	cur       *Thread
	sched     *schedState
	opts      pathOpts
	reached   map[string]bool
	reachOrd  []string
	unknown   bool
	initMode  bool
	observed  []string
	kwp       bool
	freshByNm map[string]*Term
	nAsserts  int
	caller    string
	blockKeys map[int]bool
	pcSeen    map[int]bool
	symGlob   map[string]Value
	lenPool   []int
	hashes    map[string][]hashRec
	once      map[*Obj]bool
	aes       []aesRec
	tempDirs  int
	aesPlain  bool
	realLog   bool // zerolog is executed instead of silenced
	aesRandom map[int]bool
}

type pathOpts struct {
	mapOrder bool
	fine     bool
	preempt  int
	maxSteps int
}

type Frame struct {
	fn       *ssa.Function
	env      []Value // registers, parameters, free variables
	nreg     int
	defers   []deferred
	panicing *goPanic
	recov    bool
	visits   map[*ssa.BasicBlock]int
	caller   *Frame
	pos      token.Pos
}

type deferred struct {
	fn   *FuncV
	inv  *ssa.CallCommon
	args []Value
}

func (p *Path) unsupported(msg string) {
	panic(&pathAbort{"unsupported", msg + p.where()})
}

func (p *Path) where() string {
	var out []string
	if p.cur == nil {
		return ""
	}
	fs := p.cur.frames
	for i := len(fs) - 1; i >= 0 && len(out) < 6; i-- {
		out = append(out, fmt.Sprintf("%s@%s", fs[i].fn.String(), p.w.eng.prog.Fset.Position(fs[i].pos)))
	}
	return " at " + strings.Join(out, " < ")
}

func (p *Path) goPanicStr(s string) {
	if os.Getenv("GOSYM_PANIC") != "" {
		fmt.Fprintln(os.Stderr, "go panic:", s, p.where())
	}
	v := Iface{types.Typ[types.String], Str{s: s}}
	if t, ok := strings.CutPrefix(s, "runtime error: "); ok {
		if pk := p.w.eng.pkgs["runtime"]; pk != nil && pk.Type("errorString") != nil {
			v = Iface{pk.Type("errorString").Type(), Str{s: t}}
		}
	} else if pk := p.w.eng.pkgs["runtime"]; pk != nil && pk.Type("plainError") != nil && (strings.HasPrefix(s, "assignment to") || strings.Contains(s, "channel")) {
		v = Iface{pk.Type("plainError").Type(), v.v}
	}
	panic(&goPanic{v, true})
}

// ---- decisions ----

func (p *Path) addPC(c *Term) {
	if c.isTrue() || p.pcSeen[c.id] {
		return
	}
	p.pcSeen[c.id] = true
	p.pc = append(p.pc, c)
	p.learn(c)
}

func (p *Path) learn(c *Term) {
	if c.op == ONot {
		p.facts[c.args[0].id] = false
		if c.args[0].op == OOr {
			for _, a := range c.args[0].args {
				p.learn(p.T.Not(a))
			}
		}
		return
	}
	p.facts[c.id] = true
	if c.op == OAnd {
		for _, a := range c.args {
			p.learn(a)
		}
	}
}

func (p *Path) known(c *Term) (bool, bool) {
	if c.isConst() {
		return c.u == 1, true
	}
	if v, ok := p.facts[c.id]; ok {
		return v, true
	}
	if c.op == ONot {
		if v, ok := p.known(c.args[0]); ok {
			return !v, true
		}
	}
	if c.op == OAnd {
		all := true
		for _, a := range c.args {
			v, ok := p.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.op == OOr {
		all := true
		for _, a := range c.args {
			v, ok := p.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// Branch forks on c. Decision codes: 0/1 free choice, 2/3 implied.
func (p *Path) Branch(c *Term) bool {
	if v, ok := p.known(c); ok {
		return v
	}
	if p.initMode {
		p.unsupported("symbolic branch during package initialisation")
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		v := d&1 == 1
		t := c
		if !v {
			t = p.T.Not(c)
		}
		if d >= 2 {
			p.learn(t)
		} else {
			p.addPC(t)
		}
		return v
	}
	p.pos++
	nc := p.T.Not(c)
	rt := p.check(c)
	var rf Result
	if rt == Unsat {
		rf = Sat
	} else {
		rf = p.check(nc)
	}
	switch {
	case rt == Unsat:
		p.decs = append(p.decs, 2)
		p.learn(nc)
		return false
	case rf == Unsat:
		p.decs = append(p.decs, 3)
		p.learn(c)
		return true
	}
	alt := append(append([]int(nil), p.decs...), 0)
	p.w.run.push(alt)
	p.decs = append(p.decs, 1)
	p.addPC(c)
	return true
}

func (p *Path) check(c *Term) Result {
	r, _ := p.w.solver.Check(p.pc, c, nil)
	if r == Unknown {
		p.unknown = true
		p.w.run.noteIncomplete("solver-unknown", "branch query undecided"+p.where())
		return Sat
	}
	return r
}

func (p *Path) Choice(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		return d
	}
	p.pos++
	for i := n - 1; i >= 1; i-- {
		p.w.run.push(append(append([]int(nil), p.decs...), i))
	}
	p.decs = append(p.decs, 0)
	return 0
}

// Conc forks over the feasible values of t.
func (p *Path) Conc(t *Term) uint64 {
	for i := 0; ; i++ {
		if t.isConst() {
			return t.u
		}
		if t.w > 64 {
			p.unsupported("concretise wide term")
		}
		if i > 40 {
			panic(&pathAbort{"bound", "too many values to concretise" + p.where()})
		}
		var v int
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos]
			p.pos++
			p.decs = append(p.decs, v)
		} else {
			p.pos++
			r, vals := p.w.solver.Value(p.pc, t)
			if r != Sat {
				panic(&pathAbort{"bound", "solver could not concretise" + p.where()})
			}
			v = int(vals[0].Uint64())
			p.decs = append(p.decs, v)
		}
		if p.Branch(p.T.Eq(t, p.T.BV(t.w, uint64(v)))) {
			return uint64(v) & mask(t.w)
		}
	}
}

func (p *Path) Assume(c *Term) {
	if v, ok := p.known(c); ok {
		if !v {
			panic(&pathAbort{"assume", ""})
		}
		return
	}
	if p.pos >= len(p.prefix) {
		if p.check(c) == Unsat {
			panic(&pathAbort{"assume", ""})
		}
	}
	p.addPC(c)
}

// assumeFresh adds a constraint known to be satisfiable together with the path (model facts).
func (p *Path) assumeModel(c *Term) { p.addPC(c) }

func (p *Path) freshBytes(name string, n int, record bool) []*Term {
	p.freshN[name]++
	nm := fmt.Sprintf("%s#%d", name, p.freshN[name])
	if n == 0 {
		if record {
			p.inputs = append(p.inputs, Input{Name: name, Kind: "bytes", T: nil})
		}
		return []*Term{}
	}
	nm = fmt.Sprintf("%s:%d", nm, n)
	v := p.T.Var(nm, 8*n)
	out := make([]*Term, n)
	for i := range out {
		out[i] = p.T.Extract(v, 8*(n-i)-1, 8*(n-i-1))
	}
	if record {
		p.inputs = append(p.inputs, Input{Name: name, Kind: "bytes", T: v})
	}
	return out
}

// uniqueFresh returns n bytes of ideal randomness: distinct from every earlier ideal value of the same length.
func (p *Path) uniqueFresh(name string, n int) []*Term {
	b := p.freshBytes(name, n, false)
	if n > 0 {
		v := p.T.Concat(b...)
		p.inputs = append(p.inputs, Input{Name: name, Kind: "fresh", T: v})
		if n >= 8 {
			for _, o := range p.uniq[n] {
				p.differ(v, o)
			}
			p.uniq[n] = append(p.uniq[n], v)
		}
	}
	return b
}

// differ adds the fact that two ideal values differ.
func (p *Path) differ(v, o *Term) {
	c := p.T.Not(p.T.Eq(v, o))
	if p.uniqPC == nil {
		p.uniqPC = map[int]bool{}
	}
	p.uniqPC[c.id] = true
	p.assumeModel(c)
}

// ---- execution ----

const maxDepth = 400

func (p *Path) callFn(fn *ssa.Function, args []Value, binds []Value) Value {
	if v, ok := p.intrinsic(fn, args, binds); ok {
		return v
	}
	if fn.Blocks == nil {
		p.unsupported("no body: " + fn.String())
	}
	th := p.cur
	if th.depth > maxDepth {
		panic(&pathAbort{"bound", "call depth" + p.where()})
	}
	fr := p.w.newFrame(fn)
	th.depth++
	th.frames = append(th.frames, fr)
	nfr := len(th.frames)
	defer func() {
		th.depth--
		th.frames = th.frames[:nfr-1]
	}()
	if p.w.run != nil {
		p.w.noteFn(fn)
	}
	for i, prm := range fn.Params {
		if i < len(args) {
			*fr.reg(prm) = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		*fr.reg(fv) = binds[i]
	}
	return p.runFrame(fr)
}

func (p *Path) runFrame(fr *Frame) (ret Value) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			// run deferred functions
			fr.panicing = gp
			p.runDefers(fr)
			if fr.panicing != nil {
				panic(fr.panicing)
			}
			// recovered: results come from the recover block (named results) or zero
			if fr.fn.Recover != nil {
				ret = p.execBlocks(fr, fr.fn.Recover)
			} else {
				res := fr.fn.Signature.Results()
				switch res.Len() {
				case 0:
					ret = nil
				case 1:
					ret = p.zero(res.At(0).Type())
				default:
					ret = p.zero(res)
				}
			}
		}
	}()
	return p.execBlocks(fr, fr.fn.Blocks[0])
}

func (p *Path) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					fr.panicing = gp // a new panic replaces the old one
				}
			}()
			if d.inv != nil {
				p.invoke(d.inv, d.args[0].(Iface), d.args[1:])
			} else {
				p.callValue(d.fn, d.args, fr)
			}
		}()
	}
}

func (p *Path) callValue(f *FuncV, args []Value, fr *Frame) Value {
	if f == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if f.nat != nil {
		return f.nat(p, args)
	}
	if f.bi != nil {
		return p.builtin(f.bi, args, nil, fr)
	}
	return p.callFn(f.fn, args, f.binds)
}

func (p *Path) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return p.constVal(x)
	case *ssa.Global:
		return Ptr{p.global(x), -1, nil, 0}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	return *fr.reg(v)
}

// reg finds the place of a value in the frame: registers by their number, then parameters, then free variables.
func (fr *Frame) reg(v ssa.Value) *Value {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, q := range fr.fn.Params {
			if q == v {
				return &fr.env[fr.nreg+i]
			}
		}
	case *ssa.FreeVar:
		for i, q := range fr.fn.FreeVars {
			if q == v {
				return &fr.env[fr.nreg+len(fr.fn.Params)+i]
			}
		}
	default:
		return &fr.env[regNum(v)]
	}
	panic(&pathAbort{"unsupported", "value " + v.Name() + " is not of " + fr.fn.String()})
}

// regNum reads the register number of an instruction, an unexported field of go/ssa; newFrame has checked for each
// function that this is where it lies.
func regNum(v ssa.Value) int {
	type iface struct{ typ, data unsafe.Pointer }
	return *(*int)(unsafe.Add((*iface)(unsafe.Pointer(&v)).data, unsafe.Sizeof(uintptr(0))))
}

func (w *Worker) newFrame(fn *ssa.Function) *Frame {
	n, ok := w.nregs[fn]
	if !ok {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				k := regNum(v)
				if v.Name() != "t"+strconv.Itoa(k) {
					panic("register numbers of go/ssa are not where expected: " + v.Name() + " in " + fn.String())
				}
				n = max(n, k+1)
			}
		}
		if w.nregs == nil {
			w.nregs = map[*ssa.Function]int{}
		}
		w.nregs[fn] = n
	}
	return &Frame{fn: fn, nreg: n, env: make([]Value, n+len(fn.Params)+len(fn.FreeVars))}
}

func (p *Path) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return p.zero(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return p.T.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			i, _ := constant.Int64Val(c.Value)
			return Str{s: string(rune(i))}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return F64(f)
		case b.Info()&types.IsInteger != 0:
			w, _, _ := intWidth(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return p.T.BV(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return p.T.BV(w, u)
		}
	}
	if _, ok := under(t).(*types.TypeParam); ok {
		p.unsupported("const of type param")
	}
	p.unsupported("const " + c.String())
	return nil
}

func (p *Path) global(g *ssa.Global) *Obj {
	if p.w.eng.isPathPkg(g.Pkg.Pkg.Path()) {
		if o, ok := p.globals[g]; ok {
			return o
		}
		et := g.Type().(*types.Pointer).Elem()
		o := p.newObj(et, p.zero(et))
		p.globals[g] = o
		return o
	}
	return p.w.sharedGlobal(p, g)
}

func (p *Path) execBlocks(fr *Frame, blk *ssa.BasicBlock) Value {
	var prev *ssa.BasicBlock
	for {
		// phis
		nphi := 0
		if prev != nil {
			var pi int = -1
			for i, b := range blk.Preds {
				if b == prev {
					pi = i
					break
				}
			}
			var vals []Value
			for _, in := range blk.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vals = append(vals, p.get(fr, ph.Edges[pi]))
				nphi++
			}
			for i := 0; i < nphi; i++ {
				*fr.reg(blk.Instrs[i].(*ssa.Phi)) = vals[i]
			}
		}
		var next *ssa.BasicBlock
		for _, in := range blk.Instrs[nphi:] {
			p.steps++
			if p.steps&1023 == 0 && p.w.run != nil && p.w.run.overdue.Load() {
				panic(&pathAbort{"time", "time budget"})
			}
			if p.steps > p.opts.maxSteps {
				panic(&pathAbort{"bound", "step limit" + p.where()})
			}
			if ps := in.Pos(); ps.IsValid() {
				fr.pos = ps
			}
			switch x := in.(type) {
			case *ssa.If:
				c := p.get(fr, x.Cond).(*Term)
				if p.Branch(c) {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return p.get(fr, x.Results[0])
				}
				t := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					t[i] = p.get(fr, r)
				}
				return t
			case *ssa.RunDefers:
				p.runDefers(fr)
				if fr.panicing != nil {
					gp := fr.panicing
					fr.panicing = nil
					panic(gp)
				}
			case *ssa.Panic:
				v := p.get(fr, x.X).(Iface)
				panic(&goPanic{v, false})
			default:
				p.exec(fr, in)
			}
		}
		if next == nil {
			p.unsupported("fell off block")
		}
		prev, blk = blk, next
		if next.Index <= prev.Index {
			if fr.visits == nil {
				fr.visits = map[*ssa.BasicBlock]int{}
			}
			fr.visits[next]++
			if fr.visits[next] > p.w.eng.maxLoop {
				panic(&pathAbort{"bound", "loop unrolling" + p.where()})
			}
		}
	}
}

func (p *Path) exec(fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		*fr.reg(x) = Ptr{p.newObj(et, p.zero(et)), -1, nil, 0}
	case *ssa.BinOp:
		*fr.reg(x) = p.binop(x.Op, p.get(fr, x.X), p.get(fr, x.Y), x.X.Type(), x.Y.Type())
	case *ssa.UnOp:
		*fr.reg(x) = p.unop(fr, x)
	case *ssa.ChangeType:
		*fr.reg(x) = p.get(fr, x.X)
	case *ssa.ChangeInterface:
		*fr.reg(x) = p.get(fr, x.X)
	case *ssa.Convert:
		*fr.reg(x) = p.convert(p.get(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		*fr.reg(x) = p.convert(p.get(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		*fr.reg(x) = Iface{x.X.Type(), p.get(fr, x.X)}
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = p.get(fr, v)
		}
		*fr.reg(x) = &FuncV{fn: x.Fn.(*ssa.Function), binds: b}
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		*fr.reg(x) = p.newMap(mt)
	case *ssa.MakeSlice:
		st := under(x.Type()).(*types.Slice)
		ln := p.sizeOf(p.get(fr, x.Len).(*Term))
		cp := p.sizeOf(p.get(fr, x.Cap).(*Term))
		if ln < 0 || ln > 1<<24 {
			p.goPanicStr("runtime error: makeslice: len out of range")
		}
		if cp < ln {
			p.goPanicStr("runtime error: makeslice: cap out of range")
		}
		*fr.reg(x) = Slice{p.newArr(st.Elem(), cp), 0, ln, cp}
	case *ssa.MakeChan:
		sz := p.sizeOf(p.get(fr, x.Size).(*Term))
		*fr.reg(x) = &Chan{cap: sz, et: under(x.Type()).(*types.Chan).Elem()}
	case *ssa.Store:
		p.store(p.get(fr, x.Addr).(Ptr), p.get(fr, x.Val))
	case *ssa.Field:
		*fr.reg(x) = p.get(fr, x.X).(StructV)[x.Field]
	case *ssa.FieldAddr:
		q := p.get(fr, x.X).(Ptr)
		if q.o == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		o := q.o
		if q.idx >= 0 && o.kind == oAgg {
			o = o.kids[q.idx]
		}
		if o.kind != oStruct {
			p.unsupported("field of non-struct object " + o.typ.String())
		}
		*fr.reg(x) = Ptr{o.kids[x.Field], -1, nil, 0}
	case *ssa.Index:
		*fr.reg(x) = p.index(p.get(fr, x.X), p.get(fr, x.Index).(*Term), x.Index.Type())
	case *ssa.IndexAddr:
		*fr.reg(x) = p.indexAddr(p.get(fr, x.X), p.get(fr, x.Index).(*Term), x.Index.Type())
	case *ssa.Lookup:
		*fr.reg(x) = p.lookup(fr, x)
	case *ssa.MapUpdate:
		m, _ := p.get(fr, x.Map).(*MapObj)
		p.mapSet(m, p.get(fr, x.Key), p.get(fr, x.Value))
	case *ssa.Range:
		switch v := p.get(fr, x.X).(type) {
		case *MapObj:
			*fr.reg(x) = &MapIter{m: v, seen: map[*MapEntry]bool{}}
		case Str:
			*fr.reg(x) = &StrIter{s: v}
		default:
			p.unsupported("range")
		}
	case *ssa.Next:
		*fr.reg(x) = p.next(x, p.get(fr, x.Iter))
	case *ssa.Slice:
		*fr.reg(x) = p.sliceOp(fr, x)
	case *ssa.SliceToArrayPointer:
		s := p.get(fr, x.X).(Slice)
		at := under(x.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
		if int64(s.ln) < at.Len() {
			p.goPanicStr("runtime error: cannot convert slice to array pointer: length mismatch")
		}
		if s.o == nil {
			*fr.reg(x) = nilPtr
			break
		}
		if s.off == 0 && s.o.kind == oArr && int64(len(s.o.vals)) == at.Len() {
			*fr.reg(x) = Ptr{s.o, -1, nil, 0}
			break
		}
		// a window object sharing storage is not representable unless vals are aliased
		w := &Obj{kind: s.o.kind, typ: at, id: -1}
		if s.o.kind == oArr {
			w.vals = s.o.vals[s.off : s.off+int(at.Len())]
		} else {
			w.kids = s.o.kids[s.off : s.off+int(at.Len())]
		}
		*fr.reg(x) = Ptr{w, -1, nil, 0}
	case *ssa.TypeAssert:
		*fr.reg(x) = p.typeAssert(x, p.get(fr, x.X).(Iface))
	case *ssa.Extract:
		*fr.reg(x) = p.get(fr, x.Tuple).(Tuple)[x.Index]
	case *ssa.Call:
		*fr.reg(x) = p.doCall(fr, &x.Call, x)
	case *ssa.Defer:
		d := deferred{}
		if x.Call.IsInvoke() {
			d.inv = &x.Call
			d.args = append(d.args, p.get(fr, x.Call.Value))
		} else {
			d.fn, _ = p.get(fr, x.Call.Value).(*FuncV)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, p.get(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		if x.Call.IsInvoke() {
			recv := p.get(fr, x.Call.Value).(Iface)
			var args []Value
			for _, a := range x.Call.Args {
				args = append(args, p.get(fr, a))
			}
			call := x.Call
			p.spawn(func() { p.invoke(&call, recv, args) })
			break
		}
		f, _ := p.get(fr, x.Call.Value).(*FuncV)
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, p.get(fr, a))
		}
		p.spawn(func() { p.callValue(f, args, nil) })
	case *ssa.Send:
		p.chanSend(p.get(fr, x.Chan).(*Chan), p.get(fr, x.X))
	default:
		p.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

func (p *Path) newMap(mt *types.Map) *MapObj {
	p.objN++
	return &MapObj{kt: mt.Key(), vt: mt.Elem(), id: p.objN, acc: access{site: p.site()}}
}

func (p *Path) sizeOf(t *Term) int {
	if t.isConst() {
		return int(t.sval())
	}
	v := p.Conc(t)
	return int(p.T.BV(t.w, v).sval())
}

func (p *Path) doCall(fr *Frame, c *ssa.CallCommon, site *ssa.Call) Value {
	if c.IsInvoke() {
		recv, ok := p.get(fr, c.Value).(Iface)
		if !ok {
			p.unsupported("invoke on non-interface")
		}
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = p.get(fr, a)
		}
		return p.invoke(c, recv, args)
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = p.get(fr, a)
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return p.builtin(f, args, c, fr)
	case *ssa.Function:
		return p.callFn(f, args, nil)
	}
	f, _ := p.get(fr, c.Value).(*FuncV)
	return p.callValue(f, args, fr)
}

func (p *Path) invoke(c *ssa.CallCommon, recv Iface, args []Value) Value {
	if recv.t == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if n, ok := recv.v.(*Native); ok {
		return p.nativeMethod(n, c.Method.Name(), args)
	}
	fn := p.w.eng.lookupMethod(recv.t, c.Method)
	if fn == nil {
		p.unsupported("method " + c.Method.Name() + " on " + recv.t.String())
	}
	return p.callFn(fn, append([]Value{recv.v}, args...), nil)
}

func (p *Path) binop(op token.Token, a, b Value, at, bt types.Type) Value {
	switch op {
	case token.EQL:
		return p.valueEqT(a, b, at, bt)
	case token.NEQ:
		return p.T.Not(p.valueEqT(a, b, at, bt))
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			if x.b == nil && y.b == nil {
				return Str{s: x.s + y.s}
			}
			return p.mkStr(append(append([]*Term(nil), p.strBytes(x)...), p.strBytes(y)...))
		case token.LSS:
			return p.strLess(x, y)
		case token.GTR:
			return p.strLess(y, x)
		case token.LEQ:
			return p.T.Not(p.strLess(y, x))
		case token.GEQ:
			return p.T.Not(p.strLess(x, y))
		}
	case F64:
		y := b.(F64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return p.T.Bool(x < y)
		case token.LEQ:
			return p.T.Bool(x <= y)
		case token.GTR:
			return p.T.Bool(x > y)
		case token.GEQ:
			return p.T.Bool(x >= y)
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		T := p.T
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return T.And(x, y)
			case token.OR, token.LOR:
				return T.Or(x, y)
			case token.XOR:
				return T.Not(T.Eq(x, y))
			}
		}
		_, signed, _ := intWidth(at)
		switch op {
		case token.ADD:
			return T.Add(x, y)
		case token.SUB:
			return T.Sub(x, y)
		case token.MUL:
			return T.Mul(x, y)
		case token.QUO, token.REM:
			if p.Branch(T.Eq(y, T.BV(y.w, 0))) {
				p.goPanicStr("runtime error: integer divide by zero")
			}
			o := OUDiv
			if op == token.REM {
				o = OURem
			}
			if signed {
				if op == token.QUO {
					o = OSDiv
				} else {
					o = OSRem
				}
			}
			return T.Div(o, x, y)
		case token.AND:
			return T.BAnd(x, y)
		case token.OR:
			return T.BOr(x, y)
		case token.XOR:
			return T.BXor(x, y)
		case token.AND_NOT:
			return T.BAnd(x, T.BNot(y))
		case token.SHL, token.SHR:
			_, ysigned, _ := intWidth(bt)
			if ysigned && p.Branch(T.Slt(y, T.BV(y.w, 0))) {
				p.goPanicStr("runtime error: negative shift amount")
			}
			// bring shift count to width of x with saturation
			var k *Term
			if y.w <= x.w {
				k = T.Zext(y, x.w)
			} else {
				big := T.Not(T.Ult(y, T.BV(y.w, uint64(x.w))))
				k = T.Ite(big, T.BV(x.w, uint64(x.w)), T.Extract(y, x.w-1, 0))
			}
			if op == token.SHL {
				return T.Shl(x, k)
			}
			if signed {
				return T.Ashr(x, k)
			}
			return T.Lshr(x, k)
		case token.LSS:
			if signed {
				return T.Slt(x, y)
			}
			return T.Ult(x, y)
		case token.GTR:
			if signed {
				return T.Slt(y, x)
			}
			return T.Ult(y, x)
		case token.LEQ:
			if signed {
				return T.Sle(x, y)
			}
			return T.Ule(x, y)
		case token.GEQ:
			if signed {
				return T.Sle(y, x)
			}
			return T.Ule(y, x)
		}
	}
	p.unsupported(fmt.Sprintf("binop %v on %T", op, a))
	return nil
}

func (p *Path) strLess(x, y Str) *Term {
	if x.b == nil && y.b == nil {
		return p.T.Bool(x.s < y.s)
	}
	a, b := p.strBytes(x), p.strBytes(y)
	n := min(len(a), len(b))
	out := p.T.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		out = p.T.Ite(p.T.Eq(a[i], b[i]), out, p.T.Ult(a[i], b[i]))
	}
	return out
}

func (p *Path) valueEqT(a, b Value, at, bt types.Type) *Term {
	// mixed interface / concrete comparison
	_, ai := a.(Iface)
	_, bi := b.(Iface)
	if ai && !bi {
		return p.valueEq(a, Iface{bt, b})
	}
	if bi && !ai {
		return p.valueEq(Iface{at, a}, b)
	}
	return p.valueEq(a, b)
}

func (p *Path) unop(fr *Frame, x *ssa.UnOp) Value {
	v := p.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		q, ok := v.(Ptr)
		if !ok {
			p.unsupported(fmt.Sprintf("load through %T", v))
		}
		r := p.load(q)
		// reinterpretation through unsafe pointers
		if s, ok := r.(Slice); ok {
			if b, ok := under(x.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return p.mkStr(p.sliceBytes(s))
			}
		}
		return r
	case token.NOT:
		return p.T.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(F64); ok {
			return -f
		}
		return p.T.Neg(v.(*Term))
	case token.XOR:
		return p.T.BNot(v.(*Term))
	case token.ARROW:
		c, _ := v.(*Chan)
		val, ok := p.chanRecv(c)
		if x.CommaOk {
			return Tuple{val, p.T.Bool(ok)}
		}
		return val
	}
	p.unsupported("unop " + x.Op.String())
	return nil
}

func (p *Path) convert(v Value, from, to types.Type) Value {
	uf, ut := under(from), under(to)
	if tb, ok := ut.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsInteger != 0:
			w, _, _ := intWidth(to)
			switch x := v.(type) {
			case *Term:
				_, sg, _ := intWidth(from)
				if x.w >= w {
					return p.T.Extract(x, w-1, 0)
				}
				if sg {
					return p.T.Sext(x, w)
				}
				return p.T.Zext(x, w)
			case F64:
				return p.T.BV(w, uint64(int64(x)))
			case Ptr:
				if x.isNil() {
					return p.T.BV(w, 0)
				}
				p.unsupported("pointer to integer")
			}
		case tb.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case F64:
				return x
			case *Term:
				if !x.isConst() {
					p.unsupported("symbolic int to float")
				}
				_, sg, _ := intWidth(from)
				if sg {
					return F64(x.sval())
				}
				return F64(x.u)
			}
		case tb.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case *Term: // rune -> string
				if x.isConst() {
					return Str{s: string(rune(x.sval()))}
				}
				p.w.eng.mustFn(p, "unicode/utf8.AppendRune")
				fn := p.w.eng.mustFn(p, "unicode/utf8.AppendRune")
				r := p.callFn(fn, []Value{Slice{}, p.T.Sext(x, 32)}, nil)
				return p.mkStr(p.sliceBytes(r.(Slice)))
			case Slice:
				st := uf.(*types.Slice)
				if w, _, _ := intWidth(st.Elem()); w == 8 {
					return p.mkStr(p.sliceBytes(x))
				}
				var out []*Term
				for _, r := range p.sliceVals(x) {
					s := p.convert(r, types.Typ[types.Int32], types.Typ[types.String]).(Str)
					out = append(out, p.strBytes(s)...)
				}
				return p.mkStr(out)
			}
		case tb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			if w, _, _ := intWidth(st.Elem()); w == 8 {
				return p.mkBytes(p.strBytes(s))
			}
			it := &StrIter{s: s}
			var rs []Value
			for {
				r, _, ok := p.nextRune(it)
				if !ok {
					break
				}
				rs = append(rs, r)
			}
			o := p.newArr(st.Elem(), len(rs))
			copy(o.vals, rs)
			return Slice{o, 0, len(rs), len(rs)}
		}
		return v
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v // unsafe.Pointer -> *T
	}
	if types.Identical(uf, ut) {
		return v
	}
	if _, ok := v.(Slice); ok {
		if at, ok := ut.(*types.Array); ok {
			s := v.(Slice)
			if int64(s.ln) < at.Len() {
				p.goPanicStr("runtime error: cannot convert slice to array")
			}
			return ArrayV(append([]Value(nil), p.sliceVals(s)[:at.Len()]...))
		}
	}
	p.unsupported(fmt.Sprintf("convert %v -> %v", from, to))
	return nil
}

// bound checks that idx (any int type) lies in [0,n); panics in Go terms otherwise.
func (p *Path) checkIdx(idx *Term, t types.Type, n int) *Term {
	_, sg, _ := intWidth(t)
	var i64 *Term
	if idx.w < 64 {
		if sg {
			i64 = p.T.Sext(idx, 64)
		} else {
			i64 = p.T.Zext(idx, 64)
		}
	} else {
		i64 = idx
	}
	if !p.Branch(p.T.Ult(i64, p.T.BV(64, uint64(n)))) {
		p.goPanicStr(fmt.Sprintf("runtime error: index out of range [%v] with length %d", idx, n))
	}
	return i64
}

func (p *Path) index(v Value, idx *Term, it types.Type) Value {
	switch x := v.(type) {
	case Str:
		i := p.checkIdx(idx, it, x.Len())
		if i.isConst() {
			if x.b == nil {
				return p.T.BV(8, uint64(x.s[i.u]))
			}
			return x.b[i.u]
		}
		if x.b == nil {
			if r := p.alphabet(x.s, i); r != nil {
				return r
			}
		}
		bs := p.strBytes(x)
		var out *Term
		for k := len(bs) - 1; k >= 0; k-- {
			if out == nil {
				out = bs[k]
			} else {
				out = p.T.Ite(p.T.Eq(i, p.T.BV(64, uint64(k))), bs[k], out)
			}
		}
		return out
	case ArrayV:
		i := p.checkIdx(idx, it, len(x))
		if i.isConst() {
			return x[i.u]
		}
		if _, ok := x[0].(*Term); ok {
			var out *Term
			for k := len(x) - 1; k >= 0; k-- {
				if out == nil {
					out = x[k].(*Term)
				} else {
					out = p.T.Ite(p.T.Eq(i, p.T.BV(64, uint64(k))), x[k].(*Term), out)
				}
			}
			return out
		}
		return x[p.Conc(i)]
	}
	p.unsupported(fmt.Sprintf("index %T", v))
	return nil
}

func (p *Path) indexAddr(v Value, idx *Term, it types.Type) Value {
	var o *Obj
	off, n := 0, 0
	switch x := v.(type) {
	case Slice:
		o, off, n = x.o, x.off, x.ln
	case Ptr:
		if x.isNil() {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		o = x.o
		if x.idx >= 0 {
			o = x.o.kids[x.idx]
		}
		if o.kind == oArr {
			n = len(o.vals)
		} else {
			n = len(o.kids)
		}
	default:
		p.unsupported(fmt.Sprintf("indexaddr %T", v))
	}
	i := p.checkIdx(idx, it, n)
	if i.isConst() {
		return elemPtr(o, off+int(i.u))
	}
	if o.kind == oArr {
		if _, ok := o.vals[off].(*Term); ok && n <= 4096 {
			return Ptr{o, off, i, n}
		}
	}
	return elemPtr(o, off+int(p.Conc(i)))
}

func (p *Path) lookup(fr *Frame, x *ssa.Lookup) Value {
	v := p.get(fr, x.X)
	if s, ok := v.(Str); ok {
		return p.index(s, p.get(fr, x.Index).(*Term), x.Index.Type())
	}
	m, _ := v.(*MapObj)
	k := p.get(fr, x.Index)
	e := p.mapFind(m, k)
	vt := under(x.X.Type()).(*types.Map).Elem()
	var r Value
	if e != nil {
		r = e.v
	} else {
		r = p.zero(vt)
	}
	if x.CommaOk {
		return Tuple{r, p.T.Bool(e != nil)}
	}
	return r
}

func (p *Path) next(x *ssa.Next, it Value) Value {
	tt := x.Type().(*types.Tuple)
	zeroOr := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return p.zero(t)
	}
	switch i := it.(type) {
	case *MapIter:
		if i.m == nil {
			return Tuple{p.T.False, zeroOr(1), zeroOr(2)}
		}
		p.touch(&i.m.acc, false)
		if p.opts.mapOrder {
			var live []*MapEntry
			for _, e := range i.m.entries {
				if !e.dead && !i.seen[e] {
					live = append(live, e)
				}
			}
			if len(live) == 0 {
				return Tuple{p.T.False, zeroOr(1), zeroOr(2)}
			}
			c := 0
			if len(live) > 1 && len(i.m.entries) <= 4 {
				c = p.Choice(len(live))
				// the chosen order cannot be replayed natively (Go randomises it): replays retry
			}
			e := live[c]
			i.seen[e] = true
			return Tuple{p.T.True, e.k, e.v}
		}
		for i.pos < len(i.m.entries) {
			e := i.m.entries[i.pos]
			i.pos++
			if !e.dead {
				return Tuple{p.T.True, e.k, e.v}
			}
		}
		return Tuple{p.T.False, zeroOr(1), zeroOr(2)}
	case *StrIter:
		start := i.pos
		r, _, ok := p.nextRune(i)
		if !ok {
			return Tuple{p.T.False, p.T.BV(64, 0), p.T.BV(32, 0)}
		}
		return Tuple{p.T.True, p.T.BV(64, uint64(start)), r}
	}
	p.unsupported("next")
	return nil
}

func (p *Path) nextRune(i *StrIter) (*Term, int, bool) {
	if i.pos >= i.s.Len() {
		return nil, 0, false
	}
	if i.s.b == nil {
		for k, r := range i.s.s[i.pos:] {
			if k > 0 {
				break
			}
			n := 1
			if r >= 0x80 {
				n = len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(i.s.s[i.pos:], "\uFFFD") {
					n = 1
				}
			}
			i.pos += n
			return p.T.BV(32, uint64(uint32(r))), n, true
		}
	}
	c := i.s.b[i.pos]
	if p.Branch(p.T.Ult(c, p.T.BV(8, 0x80))) {
		i.pos++
		return p.T.Zext(c, 32), 1, true
	}
	fn := p.w.eng.mustFn(p, "unicode/utf8.DecodeRuneInString")
	r := p.callFn(fn, []Value{p.mkStr(i.s.b[i.pos:])}, nil).(Tuple)
	n := int(p.Conc(r[1].(*Term)))
	i.pos += n
	return r[0].(*Term), n, true
}

func (p *Path) sliceOp(fr *Frame, x *ssa.Slice) Value {
	v := p.get(fr, x.X)
	var lo, hi, mx *Term
	conv := func(s ssa.Value) *Term {
		t := p.get(fr, s).(*Term)
		_, sg, _ := intWidth(s.Type())
		if t.w < 64 {
			if sg {
				return p.T.Sext(t, 64)
			}
			return p.T.Zext(t, 64)
		}
		return t
	}
	if x.Low != nil {
		lo = conv(x.Low)
	}
	if x.High != nil {
		hi = conv(x.High)
	}
	if x.Max != nil {
		mx = conv(x.Max)
	}
	conc := func(t *Term, limit int, what string) int {
		if t.isConst() {
			return int(int64(t.u))
		}
		if !p.Branch(p.T.Ule(t, p.T.BV(64, uint64(limit)))) {
			p.goPanicStr("runtime error: slice bounds out of range " + what)
		}
		return int(p.Conc(t))
	}
	l := 0
	switch s := v.(type) {
	case Str:
		h := s.Len()
		if hi != nil {
			h = conc(hi, s.Len(), "string")
		}
		if lo != nil {
			l = conc(lo, s.Len(), "string")
		}
		if l < 0 || h < l || h > s.Len() {
			p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, s.Len()))
		}
		if s.b == nil {
			return Str{s: s.s[l:h]}
		}
		return p.mkStr(s.b[l:h])
	case Slice:
		h := s.ln
		if hi != nil {
			h = conc(hi, s.cp, "hi")
		}
		if lo != nil {
			l = conc(lo, s.cp, "lo")
		}
		c := s.cp
		if mx != nil {
			c = conc(mx, s.cp, "max")
		}
		if l < 0 || h < l || h > s.cp || c < h || c > s.cp {
			p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, s.cp))
		}
		if s.o == nil {
			return s
		}
		return Slice{s.o, s.off + l, h - l, c - l}
	case Ptr:
		if s.isNil() {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		o := s.o
		if s.idx >= 0 {
			o = o.kids[s.idx]
		}
		n := len(o.vals)
		if o.kind == oAgg {
			n = len(o.kids)
		}
		h := n
		if hi != nil {
			h = conc(hi, n, "hi")
		}
		if lo != nil {
			l = conc(lo, n, "lo")
		}
		c := n
		if mx != nil {
			c = conc(mx, n, "max")
		}
		if l < 0 || h < l || h > n || c < h || c > n {
			p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, n))
		}
		return Slice{o, l, h - l, c - l}
	}
	p.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

func (p *Path) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, isI := under(x.AssertedType).(*types.Interface); isI {
			if n, isN := v.v.(*Native); isN {
				ok = p.nativeImplements(n, it)
			} else {
				ok = p.w.eng.implements(v.t, it)
			}
		} else {
			ok = types.Identical(v.t, x.AssertedType)
		}
	}
	var r Value
	if ok {
		if _, isI := under(x.AssertedType).(*types.Interface); isI {
			r = v
		} else {
			r = v.v
		}
	} else {
		if !x.CommaOk {
			p.goPanicStr("interface conversion: failed type assertion to " + x.AssertedType.String())
		}
		r = p.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, p.T.Bool(ok)}
	}
	return r
}

func (p *Path) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon, fr *Frame) Value {
	i64 := func(n int) *Term { return p.T.BV(64, uint64(n)) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return i64(x.Len())
		case Slice:
			return i64(x.ln)
		case *MapObj:
			if x == nil {
				return i64(0)
			}
			p.touch(&x.acc, false)
			return i64(x.n)
		case *Chan:
			p.dirty()
			return i64(len(x.buf))
		case ArrayV:
			return i64(len(x))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return i64(x.cp)
		case *Chan:
			return i64(x.cap)
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Str:
			for _, t := range p.strBytes(y) {
				add = append(add, t)
			}
		case Slice:
			add = append([]Value(nil), p.sliceVals(y)...)
			if y.o == nil {
				return s
			}
		}
		return p.appendVals(s, add, b.Type().(*types.Signature).Results().At(0).Type())
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Str:
			for _, t := range p.strBytes(y) {
				src = append(src, t)
			}
		case Slice:
			src = append([]Value(nil), p.sliceVals(y)...)
		}
		n := min(d.ln, len(src))
		for i := 0; i < n; i++ {
			p.store(elemPtr(d.o, d.off+i), src[i])
		}
		return i64(n)
	case "delete":
		m, _ := args[0].(*MapObj)
		if m != nil {
			p.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				p.touch(&x.acc, true)
				for _, e := range x.entries {
					e.dead = true
				}
				x.n = 0
			}
		case Slice:
			if x.o != nil {
				et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := 0; i < x.ln; i++ {
					p.store(elemPtr(x.o, x.off+i), p.zero(et))
				}
			}
		}
		return nil
	case "close":
		p.dirty()
		p.release(args[0].(*Chan))
		args[0].(*Chan).closed = true
		return nil
	case "panic":
		panic(&goPanic{args[0].(Iface), false})
	case "recover":
		// the frame calling recover is the deferred function; its caller is panicking
		th := p.cur
		for i := len(th.frames) - 2; i >= 0; i-- {
			if th.frames[i].panicing != nil {
				v := th.frames[i].panicing.v
				th.frames[i].panicing = nil
				return v
			}
			break
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			t := b.Type().(*types.Signature).Params().At(0).Type()
			var lt *Term
			if b.Name() == "min" {
				lt = p.binop(token.LSS, a, r, t, t).(*Term)
			} else {
				lt = p.binop(token.LSS, r, a, t, t).(*Term)
			}
			if x, ok := a.(*Term); ok {
				r = p.T.Ite(lt, x, r.(*Term))
			} else if p.Branch(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].(Ptr); ok && q.isNil() {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil receiver)")
		}
		return args[0]
	case "String": // unsafe.String
		q := args[0].(Ptr)
		n := p.sizeOf(args[1].(*Term))
		if n == 0 {
			return Str{}
		}
		out := make([]*Term, n)
		for i := range out {
			out[i] = q.o.vals[q.idx+i].(*Term)
		}
		return p.mkStr(out)
	case "SliceData":
		s := args[0].(Slice)
		if s.o == nil {
			return nilPtr
		}
		if s.cp == 0 {
			return Ptr{s.o, 0, nil, 0}
		}
		return elemPtr(s.o, s.off)
	case "StringData":
		s := args[0].(Str)
		b := p.mkBytes(p.strBytes(s))
		return Ptr{b.o, 0, nil, 0}
	case "Slice": // unsafe.Slice
		q := args[0].(Ptr)
		n := p.sizeOf(args[1].(*Term))
		if q.isNil() {
			return Slice{}
		}
		return Slice{q.o, q.idx, n, n}
	case "Add":
		q := args[0].(Ptr)
		n := p.sizeOf(args[1].(*Term))
		return Ptr{q.o, q.idx + n, nil, 0}
	}
	p.unsupported("builtin " + b.Name())
	return nil
}

func (p *Path) appendVals(s Slice, add []Value, t types.Type) Slice {
	n := s.ln + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= s.cp && s.o != nil {
		for i, v := range add {
			p.store(elemPtr(s.o, s.off+s.ln+i), v)
		}
		return Slice{s.o, s.off, n, s.cp}
	}
	et := under(t).(*types.Slice).Elem()
	// Go's growth policy (approximation of runtime.growslice, including size classes for bytes)
	nc := growCap(s.cp, n, p.w.eng.sizeof(et))
	o := p.newArr(et, nc)
	for i, v := range p.sliceVals(s) {
		p.store(elemPtr(o, i), v)
	}
	for i, v := range add {
		p.store(elemPtr(o, s.ln+i), v)
	}
	return Slice{o, 0, n, nc}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, n, sz int) int {
	nc := old
	dbl := 2 * old
	if n > dbl {
		nc = n
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < n {
			nc += (nc + 3*256) / 4
		}
	}
	if sz == 0 {
		return n
	}
	bytes := nc * sz
	for _, c := range sizeClasses {
		if c >= bytes {
			return c / sz
		}
	}
	bytes = (bytes + 8191) / 8192 * 8192
	return bytes / sz
}

func (p *Path) bigOf(t *Term) *big.Int { return t.bigVal() }
