package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking: each thread has a vector clock, synchronisation (locks, channels, atomics, starting and
// joining threads) orders them, and two conflicting accesses of the repository's code that no order relates are a
// data race on every schedule with the same synchronisation. A race is a violation only after the native replay of
// the schedule, built with the race detector and with the scheduler's own hand-overs hidden from it, shows one too.

const raceMsg = "data race between two calls"

type vclock []uint32

func (c vclock) at(i int) uint32 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c vclock) join(o vclock) vclock {
	for len(c) < len(o) {
		c = append(c, 0)
	}
	for i, v := range o {
		if v > c[i] {
			c[i] = v
		}
	}
	return c
}

func (c vclock) copy() vclock { return append(vclock(nil), c...) }

type raceRec struct {
	tid    int
	clk    uint32
	lo, hi int // elements of an array; hi < 0: everything
	write  bool
	pos    token.Pos
}

func (r *raceRec) overlaps(lo, hi int) bool {
	return r.hi < 0 || hi < 0 || r.lo < hi && lo < r.hi
}

// raceCode tells whether the current access is the repository's: made by its code or by a library on its behalf, not
// by a harness or a stand-in.
func (p *Path) raceCode() (token.Pos, bool) {
	fs := p.cur.frames
	for i := len(fs) - 1; i >= 0; i-- {
		switch p.w.eng.ownership(fs[i].fn) {
		case 1:
			return fs[i].pos, true
		case 2:
			return 0, false
		}
	}
	return 0, false
}

// ownership: 1 the repository, 2 harness, model or stand-in, 0 a library.
func (e *Engine) ownership(fn *ssa.Function) int {
	if v, ok := e.owners.Load(fn); ok {
		return v.(int)
	}
	s := fn.String()
	n := 0
	switch {
	case strings.Contains(s, repoMod):
		n = 1
	case strings.Contains(s, "verif/"):
		n = 2
	case fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), "verif/"):
		n = 2
	}
	e.owners.Store(fn, n)
	return n
}

func (p *Path) race(a *access, write bool, lo, hi int) {
	pos, ok := p.raceCode()
	if !ok {
		return
	}
	if a.rgen != p.sched.raceGen {
		a.rgen, a.recs = p.sched.raceGen, nil
	}
	me := p.cur
	for i := range a.recs {
		r := &a.recs[i]
		if r.tid != me.id && (r.write || write) && r.overlaps(lo, hi) && r.clk > me.vc.at(r.tid) {
			p.raced(r, pos, write)
			break
		}
	}
	clk := me.vc.at(me.id)
	n := 0
	for i := range a.recs {
		r := &a.recs[i]
		if r.tid != me.id || r.write != write {
			continue
		}
		if r.clk == clk && r.lo == lo && r.hi == hi {
			return
		}
		if r.lo == lo && r.hi == hi {
			r.clk, r.pos = clk, pos
			return
		}
		if n++; n == 8 {
			r.clk, r.lo, r.hi, r.pos = clk, 0, -1, pos
			return
		}
	}
	a.recs = append(a.recs, raceRec{me.id, clk, lo, hi, write, pos})
}

func (p *Path) raced(r *raceRec, pos token.Pos, write bool) {
	k := [2]token.Pos{r.pos, pos}
	if p.sched.raced == nil {
		p.sched.raced = map[[2]token.Pos]bool{}
	}
	if p.sched.raced[k] {
		return
	}
	p.sched.raced[k] = true
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	at := func(q token.Pos) string { return p.w.eng.prog.Fset.Position(q).String() }
	p.raceViolation(kind(r.write) + " at " + at(r.pos) + ", " + kind(write) + " at " + at(pos))
}

func (p *Path) raceViolation(what string) {
	if p.w.run == nil {
		return
	}
	p.w.run.mu.Lock()
	if p.w.run.raceSeen == nil {
		p.w.run.raceSeen = map[string]int{}
	}
	p.w.run.raceSeen[what]++
	n := p.w.run.raceSeen[what]
	p.w.run.mu.Unlock()
	if n > 2 {
		return
	}
	p.violation(p.T.True, raceMsg+": "+what, "")
}

// acquire and release order the threads that synchronise on k.
func (p *Path) acquire(k interface{}) {
	if p.sched == nil || len(p.threads) == 1 {
		return
	}
	if c, ok := p.sched.locks[k]; ok {
		p.cur.vc = p.cur.vc.join(c)
	}
}

func (p *Path) release(k interface{}) {
	if p.sched == nil || len(p.threads) == 1 {
		return
	}
	if p.sched.locks == nil {
		p.sched.locks = map[interface{}]vclock{}
	}
	p.sched.locks[k] = p.sched.locks[k].join(p.cur.vc)
	p.tick(p.cur)
}

func (p *Path) tick(t *Thread) {
	t.vc = t.vc.join(make(vclock, t.id+1))
	t.vc[t.id]++
}

func lockKey(v Value) interface{} {
	switch x := v.(type) {
	case Iface:
		return lockKey(x.v)
	case Ptr:
		return [2]interface{}{x.o, x.idx}
	case *MapObj:
		return x
	case *Chan:
		return x
	}
	return "global"
}
