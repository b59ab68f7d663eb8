package main

import (
	"go/token"
	"sync/atomic"
	"time"
)

// Cooperative scheduler: threads are goroutines that hand a token to each other. Context switches happen only at
// nd.Yield / nd.Wait and at thread end, and are decisions of the path.

type schedState struct {
	count    int // scheduling points seen since Par started
	preempts int
	killed   bool
	pending  interface{}
	raceGen  int64
	locks    map[interface{}]vclock
	raced    map[[2]token.Pos]bool
}

type killed struct{}

// Preemptions are offered only after the current thread has done something another thread can notice since the last
// offer: an access to memory of an allocation site at which threads conflict. The sites are found by iteration:
// exploration starts with none and is repeated with those seen until no new ones show. The first conflict outside the
// set would happen on an explored path too, since everything before it commutes to one.

// access records which threads used an object during nd.Par.
type access struct {
	site uint64
	gen  int64
	r, w uint32
	rgen int64
	recs []raceRec
}

func (p *Path) site() uint64 {
	if p.cur == nil || len(p.cur.frames) == 0 {
		return 0
	}
	return uint64(p.cur.frames[len(p.cur.frames)-1].pos) << 8
}

func (p *Path) touch(a *access, write bool) { p.touchAt(a, write, 0, -1) }

// touchAt is touch for the elements lo to hi of an array.
func (p *Path) touchAt(a *access, write bool, lo, hi int) {
	if p.sched == nil || len(p.threads) == 1 || p.w.run == nil {
		return
	}
	if !p.cur.norace {
		p.race(a, write, lo, hi)
	}
	if p.cur.id == 0 {
		return
	}
	if a.gen != p.gen {
		a.gen, a.r, a.w = p.gen, 0, 0
	}
	bit := uint32(1) << uint(p.cur.id&31)
	if write {
		a.w |= bit
	} else {
		a.r |= bit
	}
	if p.w.run.sites[a.site] {
		p.cur.dirty = true
		return
	}
	if a.w != 0 && (a.w|a.r)&^bit != 0 && (write || a.w&^bit != 0) {
		p.cur.dirty = true
		p.w.run.newSite(a.site)
	}
}

// dirty notes an effect that is not tied to an object.
func (p *Path) dirty() { p.cur.dirty = true }

func (r *Run) newSite(s uint64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.found == nil {
		r.found = map[uint64]bool{}
		r.foundAt = time.Now()
	}
	r.found[s] = true
}

func (p *Path) startThread(f func()) *Thread {
	th := &Thread{id: len(p.threads), wake: make(chan struct{}, 1)}
	p.tick(p.cur)
	th.vc = p.cur.vc.copy()
	p.tick(th)
	p.threads = append(p.threads, th)
	go func() {
		<-th.wake
		if p.sched.killed {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killed); ok {
						return
					}
					if p.sched.pending == nil {
						p.sched.pending = r
					}
				}
			}()
			f()
		}()
		th.done = true
		if p.sched.killed {
			return
		}
		if p.sched.pending != nil {
			p.cur = p.threads[0]
			p.cur.wake <- struct{}{}
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(killed); ok {
						return
					}
					if p.sched.pending == nil {
						p.sched.pending = r
					}
					p.cur = p.threads[0]
					p.cur.wake <- struct{}{}
				}
			}()
			p.sched.count++
			if t := p.pick(nil); t != nil {
				p.cur = t
				t.wake <- struct{}{}
			} else {
				p.violation(p.T.True, "deadlock: every thread is blocked", "")
				p.sched.pending = &pathAbort{"violation", "deadlock"}
				p.cur = p.threads[0]
				p.cur.wake <- struct{}{}
			}
		}()
	}()
	return th
}

func (th *Thread) runnable() bool {
	return !th.done && (th.block == nil || th.block())
}

// pick chooses the next thread among the runnable ones, other than not.
func (p *Path) pick(not *Thread) *Thread {
	var c []*Thread
	for _, t := range p.threads {
		if t != not && t.runnable() {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	t := c[p.Choice(len(c))]
	p.inputs = append(p.inputs, Input{Name: "sched", Kind: "sched", Val: int64(p.sched.count)<<8 | int64(t.id)})
	return t
}

func (p *Path) switchTo(t *Thread) {
	me := p.cur
	if t == me {
		return
	}
	p.cur = t
	t.wake <- struct{}{}
	<-me.wake
	if p.sched.killed {
		panic(killed{})
	}
	if p.sched.pending != nil && me.id == 0 {
		r := p.sched.pending
		p.sched.pending = nil
		panic(r)
	}
}

func (p *Path) yield() {
	if p.sched == nil || len(p.threads) == 1 {
		return
	}
	p.sched.count++
	if !p.cur.dirty || p.sched.preempts >= p.opts.preempt {
		return
	}
	var c []*Thread
	for _, t := range p.threads {
		if t != p.cur && t.runnable() {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return
	}
	p.cur.dirty = false
	k := p.Choice(len(c) + 1)
	if k == 0 {
		return
	}
	t := c[k-1]
	p.sched.preempts++
	p.inputs = append(p.inputs, Input{Name: "sched", Kind: "sched", Val: int64(p.sched.count)<<8 | int64(t.id)})
	p.switchTo(t)
}

// blockUntil suspends the current thread until cond holds.
func (p *Path) blockUntil(cond func() bool) {
	if cond() {
		return
	}
	me := p.cur
	me.block = cond
	if p.sched != nil {
		p.sched.count++
	}
	t := p.pick(me)
	if t == nil {
		p.violation(p.T.True, "deadlock: every thread is blocked", "")
		panic(&pathAbort{"violation", "deadlock"})
	}
	p.switchTo(t)
	me.block = nil
}

func (p *Path) par(fs []func()) {
	if p.sched == nil {
		p.sched = &schedState{}
	}
	p.sched.raceGen, p.sched.locks = atomic.AddInt64(&pathGen, 1), nil
	if p.cur.wake == nil {
		p.cur.wake = make(chan struct{}, 1)
	}
	if p.cur.id != 0 || len(p.threads) > 1 {
		p.unsupported("nested nd.Par")
	}
	p.sched.count = 0
	p.sched.preempts = 0
	var ths []*Thread
	for _, f := range fs {
		ths = append(ths, p.startThread(f))
	}
	p.blockUntil(func() bool {
		for _, t := range ths {
			if !t.done {
				return false
			}
		}
		return true
	})
	p.threads = p.threads[:1]
	p.sched.raceGen = atomic.AddInt64(&pathGen, 1)
}

func (p *Path) spawn(f func()) {
	if p.sched == nil {
		p.sched = &schedState{raceGen: atomic.AddInt64(&pathGen, 1)}
	}
	if p.threads[0].wake == nil {
		p.threads[0].wake = make(chan struct{}, 1)
	}
	p.startThread(f)
}

func (p *Path) finishThreads() {
	for _, t := range p.threads[1:] {
		if !t.done {
			t := t
			p.blockUntil(func() bool { return t.done })
		}
	}
}

func (p *Path) killThreads() {
	if p.sched == nil {
		return
	}
	p.sched.killed = true
	for _, t := range p.threads[1:] {
		if !t.done {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
}

func (p *Path) chanSend(c *Chan, v Value) {
	p.dirty()
	if c == nil {
		p.blockUntil(func() bool { return false })
	}
	if c.closed {
		p.goPanicStr("send on closed channel")
	}
	limit := c.cap
	if limit == 0 {
		limit = 1 // rendezvous approximated by a one-slot buffer
	}
	p.blockUntil(func() bool { return len(c.buf) < limit || c.closed })
	if c.closed {
		p.goPanicStr("send on closed channel")
	}
	p.acquire(c)
	p.release(c)
	c.buf = append(c.buf, v)
}

func (p *Path) chanRecv(c *Chan) (Value, bool) {
	p.dirty()
	if c == nil {
		p.blockUntil(func() bool { return false })
	}
	p.blockUntil(func() bool { return len(c.buf) > 0 || c.closed })
	p.acquire(c)
	p.release(c)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	return p.zero(c.et), false
}
