package main

// SMT back end: a long-lived z3 process per worker, batched with push/pop.
// Any "(error" line makes the answer inconclusive.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, Cross int64
	Nanos                                             int64
}

var solverStats SolverStats

type Solver struct {
	T       *TermTable
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[int]bool
	cache   map[string]Result
	timeout time.Duration
	path    string
	declUF  map[string]bool
}

const prelude = `(set-option :print-success false)
(set-option :global-declarations true)
(define-fun b64e0 ((x (_ BitVec 6))) (_ BitVec 8) (ite (bvult x #b011010) (bvadd (concat #b00 x) #x41) (ite (bvult x #b110100) (bvadd (concat #b00 x) #x47) (ite (bvult x #b111110) (bvsub (concat #b00 x) #x04) (ite (= x #b111110) #x2b #x2f)))))
(define-fun b64e1 ((x (_ BitVec 6))) (_ BitVec 8) (ite (bvult x #b011010) (bvadd (concat #b00 x) #x41) (ite (bvult x #b110100) (bvadd (concat #b00 x) #x47) (ite (bvult x #b111110) (bvsub (concat #b00 x) #x04) (ite (= x #b111110) #x2d #x5f)))))
(define-fun inr ((x (_ BitVec 8)) (l (_ BitVec 8)) (h (_ BitVec 8))) Bool (and (bvule l x) (bvule x h)))
(define-fun isb640 ((x (_ BitVec 8))) Bool (or (inr x #x41 #x5a) (inr x #x61 #x7a) (inr x #x30 #x39) (= x #x2b) (= x #x2f)))
(define-fun isb641 ((x (_ BitVec 8))) Bool (or (inr x #x41 #x5a) (inr x #x61 #x7a) (inr x #x30 #x39) (= x #x2d) (= x #x5f)))
(define-fun b64d0 ((x (_ BitVec 8))) (_ BitVec 6) ((_ extract 5 0) (ite (inr x #x41 #x5a) (bvsub x #x41) (ite (inr x #x61 #x7a) (bvsub x #x47) (ite (inr x #x30 #x39) (bvadd x #x04) (ite (= x #x2b) #x3e #x3f))))))
(define-fun b64d1 ((x (_ BitVec 8))) (_ BitVec 6) ((_ extract 5 0) (ite (inr x #x41 #x5a) (bvsub x #x41) (ite (inr x #x61 #x7a) (bvsub x #x47) (ite (inr x #x30 #x39) (bvadd x #x04) (ite (= x #x2d) #x3e #x3f))))))
(define-fun hexe ((x (_ BitVec 4))) (_ BitVec 8) (ite (bvult x #xa) (bvadd (concat #x0 x) #x30) (bvadd (concat #x0 x) #x57)))
(define-fun ishex ((x (_ BitVec 8))) Bool (or (inr x #x30 #x39) (inr x #x41 #x46) (inr x #x61 #x66)))
(define-fun hexd ((x (_ BitVec 8))) (_ BitVec 4) ((_ extract 3 0) (ite (inr x #x30 #x39) (bvsub x #x30) (ite (inr x #x61 #x66) (bvsub x #x57) (bvsub x #x37)))))
(define-fun plainc ((x (_ BitVec 8))) Bool (and (inr x #x20 #x7e) (not (= x #x22)) (not (= x #x5c)) (not (= x #x3c)) (not (= x #x3e)) (not (= x #x26))))
`

// quickQuery is the time given to the incremental process.
const quickQuery = 500 * time.Millisecond

func NewSolver(T *TermTable, path string) *Solver {
	s := &Solver{T: T, path: path, timeout: 20 * time.Second, cache: map[string]Result{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.emitted = map[int]bool{}
	s.declUF = map[string]bool{}
	var args []string
	if strings.Contains(s.path, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", "--tlimit-per=60000"}
	} else {
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.path, args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if strings.Contains(s.path, "cvc5") {
		s.in.WriteString("(set-logic QF_UFBV)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", quickQuery.Milliseconds())
	}
	s.in.WriteString(prelude)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.u == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		h := t.bigVal().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(h)) + h
	}
	h := t.bigVal().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(h)) + h
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit defines t and everything below it (iteratively).
func (s *Solver) emit(root *Term, w io.StringWriter) {
	type fr struct {
		t *Term
		i int
	}
	if root.op == OConst || s.emitted[root.id] {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.emitted[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !s.emitted[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		t := f.t
		st = st[:len(st)-1]
		s.emitted[t.id] = true
		if t.op == OVar {
			w.WriteString(fmt.Sprintf("(declare-const t%d %s)\n", t.id, sortStr(t.w)))
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "(define-fun t%d () %s ", t.id, sortStr(t.w))
		switch t.op {
		case OExtract:
			fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.a, t.b, s.ref(t.args[0]))
		case OSext:
			fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
		case OTok:
			sb.WriteString(s.ref(t.args[0]))
		case OConcat:
			// binary concats
			sb.WriteString(strings.Repeat("(concat ", len(t.args)-1))
			sb.WriteString(s.ref(t.args[0]))
			for _, a := range t.args[1:] {
				sb.WriteString(" " + s.ref(a) + ")")
			}
		default:
			nm := opNames[t.op]
			switch t.op {
			case OUF:
				nm = t.name
				if !s.declUF[nm] {
					s.declUF[nm] = true
					var d strings.Builder
					fmt.Fprintf(&d, "(declare-fun %s (", nm)
					for _, a := range t.args {
						d.WriteString(sortStr(a.w) + " ")
					}
					fmt.Fprintf(&d, ") %s)\n", sortStr(t.w))
					w.WriteString(d.String())
				}
			case OB64E, OB64D, OIsB64:
				nm = fmt.Sprintf("%s%d", nm, t.a)
			case OPlain:
				nm = "plainc"
			}
			sb.WriteString("(" + nm)
			for _, a := range t.args {
				sb.WriteString(" " + s.ref(a))
			}
			sb.WriteString(")")
		}
		sb.WriteString(")\n")
		w.WriteString(sb.String())
	}
}

// relevant slices the constraints to those sharing variables (transitively) with goal.
func relevant(pc []*Term, goal *Term) []*Term {
	if len(pc) == 0 {
		return []*Term{goal}
	}
	in := map[int]bool{}
	if goal.vars != nil {
		for _, v := range goal.vars.ids {
			in[v] = true
		}
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, c := range pc {
			if used[i] || c.vars == nil {
				continue
			}
			hit := false
			for _, v := range c.vars.ids {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range c.vars.ids {
					in[v] = true
				}
			}
		}
	}
	out := []*Term{goal}
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// collectLemmas adds the inverse-permutation lemmas of the block-cipher applications that occur.
func (s *Solver) withLemmas(cs []*Term) []*Term {
	if len(s.T.lemmas) == 0 {
		return cs
	}
	seen := map[int]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || len(t.args) == 0 {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		if l, ok := s.T.lemmas[t.id]; ok {
			out = append(out, l)
			// the lemma itself contains new applications, whose arguments are already present
		}
	}
	for _, c := range cs {
		walk(c)
	}
	return append(append([]*Term{}, cs...), out...)
}

// Check decides satisfiability of pc ∧ goal. With want != nil and a Sat answer it
// returns the values of the wanted terms (whole pc is asserted then).
func (s *Solver) Check(pc []*Term, goal *Term, want []*Term) (Result, []*big.Int) {
	if goal.isFalse() {
		return Unsat, nil
	}
	var cs []*Term
	var key string
	if want == nil {
		if goal.isTrue() {
			return Sat, nil // pc is kept satisfiable
		}
		cs = relevant(pc, goal)
		ids := make([]int, len(cs))
		for i, c := range cs {
			ids[i] = c.id
		}
		sort.Ints(ids)
		key = fmt.Sprint(ids)
		if r, ok := s.cache[key]; ok {
			atomic.AddInt64(&solverStats.CacheHits, 1)
			return r, nil
		}
	} else {
		cs = append(append([]*Term{}, pc...), goal)
	}
	return s.run(cs, want, key)
}

// Value finds a value t can have under the satisfiable constraints pc.
func (s *Solver) Value(pc []*Term, t *Term) (Result, []*big.Int) {
	return s.run(relevant(pc, t)[1:], []*Term{t}, "")
}

func (s *Solver) run(cs []*Term, want []*Term, key string) (Result, []*big.Int) {
	cs = s.withLemmas(cs)
	t0 := time.Now()
	r, vals := s.query(cs, want)
	if r == Unknown {
		r, vals = s.portfolio(cs, want)
	}
	d := time.Since(t0)
	if os.Getenv("GOSYM_SLOW") != "" && d > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v: %v, %d constraints, goal %v\n", d, r, len(cs), cs[0].str(5))
		if k := os.Getenv("GOSYM_SLOW"); k != "1" {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", k, atomic.LoadInt64(&solverStats.Queries)), []byte(s.script(cs, want)), 0o600)
		}
	}
	atomic.AddInt64(&solverStats.Nanos, int64(d))
	atomic.AddInt64(&solverStats.Queries, 1)
	switch r {
	case Sat:
		atomic.AddInt64(&solverStats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&solverStats.UnsatN, 1)
	default:
		atomic.AddInt64(&solverStats.UnknownN, 1)
	}
	if key != "" {
		s.cache[key] = r
	}
	return r, vals
}

func (s *Solver) query(cs []*Term, want []*Term) (Result, []*big.Int) {
	for _, c := range cs {
		s.emit(c, s.in)
	}
	for _, w := range want {
		s.emit(w, s.in)
	}
	s.in.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(c))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.WriteString("(echo \"@@\")\n")
	if err := s.in.Flush(); err != nil {
		s.restart()
		return Unknown, nil
	}
	lines, ok := s.readTo(quickQuery + 15*time.Second)
	if !ok {
		s.restart()
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "(error"):
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.restart()
			return Unknown, nil
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		}
	}
	var vals []*big.Int
	if res == Sat && want != nil {
		vals = make([]*big.Int, len(want))
		const chunk = 64
		for i := 0; i < len(want); i += chunk {
			j := min(len(want), i+chunk)
			for k := i; k < j; k++ {
				if want[k].op == OConst {
					continue
				}
				fmt.Fprintf(s.in, "(get-value (t%d))\n", want[k].id)
			}
			s.in.WriteString("(echo \"@@\")\n")
			s.in.Flush()
			lines, ok := s.readTo(30 * time.Second)
			if !ok {
				s.restart()
				return Unknown, nil
			}
			txt := strings.Join(lines, " ")
			for k := i; k < j; k++ {
				if want[k].op == OConst {
					vals[k] = want[k].bigVal()
					continue
				}
				vals[k] = findVal(txt, want[k].id)
			}
		}
	}
	s.in.WriteString("(pop 1)\n")
	return res, vals
}

// script is a query on its own.
func (s *Solver) script(cs []*Term, want []*Term) string {
	f := *s
	f.emitted, f.declUF = map[int]bool{}, map[string]bool{}
	var sb strings.Builder
	sb.WriteString("(set-logic QF_UFBV)\n(set-option :produce-models true)\n")
	sb.WriteString(strings.ReplaceAll(prelude, "(set-option :global-declarations true)\n", ""))
	for _, c := range cs {
		f.emit(c, &sb)
	}
	for _, w := range want {
		f.emit(w, &sb)
	}
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", s.ref(c))
	}
	sb.WriteString("(check-sat)\n")
	for _, w := range want {
		if w.op != OConst {
			fmt.Fprintf(&sb, "(get-value (t%d))\n", w.id)
		}
	}
	return sb.String()
}

// The incremental process does no preprocessing, so what it does not decide quickly goes to solvers that start from
// the query alone; the first answer counts. The experimental one is believed only when it finds values, which the
// native replay checks.
var portfolioCmds = [][]string{
	{"z3-new", "-in", "-smt2"},
	{"cvc5", "--lang=smt2", "-q"},
	{"z3-new", "-in", "-smt2", "tactic.default_tactic=smt", "sat.euf=true"},
}

var portfolioSlots = make(chan struct{}, 4)

func (s *Solver) portfolio(cs []*Term, want []*Term) (Result, []*big.Int) {
	portfolioSlots <- struct{}{}
	defer func() { <-portfolioSlots }()
	text := s.script(cs, want)
	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
	defer cancel()
	type answer struct {
		r   Result
		out string
	}
	ch := make(chan answer, len(portfolioCmds))
	for i, c := range portfolioCmds {
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(text)
			b, _ := cmd.Output()
			a := answer{Unknown, string(b)}
			if !strings.Contains(a.out, "(error") || strings.HasPrefix(a.out, "unsat") {
				first, _, _ := strings.Cut(a.out, "\n")
				switch {
				case first == "sat":
					a.r = Sat
				case first == "unsat" && i < 2:
					a.r = Unsat
				}
			}
			ch <- a
		}()
	}
	for range portfolioCmds {
		a := <-ch
		if a.r == Unknown {
			continue
		}
		atomic.AddInt64(&solverStats.Cross, 1)
		var vals []*big.Int
		if a.r == Sat && want != nil {
			txt := strings.ReplaceAll(a.out, "\n", " ")
			for _, w := range want {
				if w.op == OConst {
					vals = append(vals, w.bigVal())
				} else {
					vals = append(vals, findVal(txt, w.id))
				}
			}
		}
		return a.r, vals
	}
	return Unknown, nil
}

func findVal(txt string, id int) *big.Int {
	p := strings.Index(txt, fmt.Sprintf("((t%d ", id))
	if p < 0 {
		return new(big.Int)
	}
	rest := txt[p+len(fmt.Sprintf("((t%d ", id)):]
	e := strings.Index(rest, "))")
	tok := strings.TrimSpace(rest[:e])
	v := new(big.Int)
	switch {
	case tok == "true":
		v.SetInt64(1)
	case tok == "false":
	case strings.HasPrefix(tok, "#x"):
		v.SetString(tok[2:], 16)
	case strings.HasPrefix(tok, "#b"):
		v.SetString(tok[2:], 2)
	}
	return v
}

func (s *Solver) readTo(d time.Duration) ([]string, bool) {
	type res struct {
		l  []string
		ok bool
	}
	ch := make(chan res, 1)
	go func() {
		var ls []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{ls, false}
				return
			}
			l = strings.TrimSpace(l)
			if l == "@@" || l == "\"@@\"" {
				ch <- res{ls, true}
				return
			}
			ls = append(ls, l)
		}
	}()
	select {
	case r := <-ch:
		return r.l, r.ok
	case <-time.After(d):
		return nil, false
	}
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}
