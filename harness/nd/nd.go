// Package nd is the interface between harnesses and the two ways of running them. Symbolically, every function here
// is intercepted by the engine: values are symbolic, choices and schedules are explored exhaustively, assertions are
// decided by the solver. Natively (this file) the values, choices and schedule of one recorded path are replayed
// against the real code.
package nd

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
)

// Rec is a recorded value.
type Rec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Hex  string `json:"hex,omitempty"`
	Val  int64  `json:"val,omitempty"`
}

// Case is one recorded path.
type Case struct {
	Harness string   `json:"harness"`
	Mode    string   `json:"mode"` // "real" or "ideal"
	Tier    int      `json:"tier"`
	Inputs  []Rec    `json:"inputs"`
	Fresh   []Rec    `json:"fresh"`
	Msg     string   `json:"msg"`
	Reach   []string `json:"reach"`
	Kind    string   `json:"kind"` // "violation" or "witness"
}

// Outcome is what a native run observed.
type Outcome struct {
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic,omitempty"`
	Diverged string   `json:"diverged,omitempty"`
	Stopped  string   `json:"stopped,omitempty"`
	Reach    []string `json:"reach"`
	Deadlock bool     `json:"deadlock,omitempty"`
	Known    []string `json:"known,omitempty"`
}

type stop struct{ why string }

type state struct {
	c        *Case
	in       int
	fresh    int
	out      *Outcome
	sched    map[int]int
	ideal    bool
	dirs     []string
	aes      map[string][]byte
	aesuf    bool
	hashIn   map[string][]byte
	rng      *rand.Rand
	mu       sync.Mutex
	inPar    bool
	count    int
	fine     bool
	ths      []*thread
	cur      *thread
	freshBad bool
}

type thread struct {
	id   int
	wake chan struct{}
	done bool
	cond func() bool
}

var st *state

// Run replays a case natively.
func Run(c *Case, f func()) *Outcome {
	st = &state{c: c, out: &Outcome{}, sched: map[int]int{}, ideal: c.Mode == "ideal", hashIn: map[string][]byte{},
		aes: map[string][]byte{}, rng: rand.New(rand.NewSource(7))}
	var in []Rec
	for _, r := range c.Inputs {
		if r.Kind == "sched" {
			st.sched[int(r.Val>>8)] = int(r.Val & 255)
			continue
		}
		in = append(in, r)
	}
	cc := *c
	cc.Inputs = in
	st.c = &cc
	defer func() {
		for _, d := range st.dirs {
			os.RemoveAll(d)
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					st.out.Stopped = s.why
					return
				}
				st.out.Panic = fmt.Sprint(r)
			}
		}()
		f()
	}()
	return st.out
}

func diverge(msg string) {
	if st.out.Diverged == "" {
		st.out.Diverged = msg
	}
}

func next(name, kind string) *Rec {
	if st.in >= len(st.c.Inputs) {
		diverge("no recorded input left for " + name)
		return nil
	}
	r := &st.c.Inputs[st.in]
	st.in++
	if r.Name != name || r.Kind != kind {
		diverge("expected input " + r.Name + "/" + r.Kind + ", harness asks for " + name + "/" + kind)
		panic(stop{"diverged"})
	}
	return r
}

// Native reports whether the harness runs natively.
func Native() bool { return true }

// Symbolic is the opposite of Native.
func Symbolic() bool { return false }

// Ideal reports whether cryptographic primitives are replaced by their ideal models.
func Ideal() bool { return st != nil && st.ideal }

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return st.c.Tier }

func bytesIn(name string, n int) []byte {
	r := next(name, "bytes")
	if r == nil {
		return make([]byte, n)
	}
	b, _ := hex.DecodeString(r.Hex)
	if len(b) != n {
		diverge("length of " + name)
		b = append(b, make([]byte, n)...)[:n]
	}
	return b
}

// Byte is an arbitrary byte.
func Byte(name string) byte { return bytesIn(name, 1)[0] }

// Bool is an arbitrary boolean.
func Bool(name string) bool { return bytesIn(name, 1)[0] == 1 }

// Uint64 is an arbitrary 64-bit value.
func Uint64(name string) uint64 {
	var v uint64
	for _, b := range bytesIn(name, 8) {
		v = v<<8 | uint64(b)
	}
	return v
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte { return bytesIn(name, n) }

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(bytesIn(name, n)) }

// Choose explores every value in [0,n).
func Choose(name string, n int) int {
	r := next(name, "choice")
	if r == nil {
		return 0
	}
	return int(r.Val)
}

// Assume restricts the path.
func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fail(msg)
	}
}

func fail(msg string) {
	for _, m := range st.out.Failed {
		if m == msg {
			return
		}
	}
	st.out.Failed = append(st.out.Failed, msg)
}

// Known asserts c; a failure while expected holds is the recorded finding kf.
func Known(kf string, c, expected bool, msg string) {
	if !c {
		fail(msg)
		if expected {
			st.out.Known = append(st.out.Known, msg)
		}
	}
}

// Reach records a point of interest.
func Reach(s string) { st.out.Reach = append(st.out.Reach, s) }

// Stop ends the path.
func Stop() { panic(stop{"stop"}) }

// Skip discards the path.
func Skip() { panic(stop{"skip"}) }

// Unsupported marks the path as outside the bounds.
func Unsupported(msg string) { panic(stop{"unsupported " + msg}) }

// Fresh returns n bytes of ideal randomness.
func Fresh(name string, n int) []byte {
	if !st.ideal {
		b := make([]byte, n)
		st.rng.Read(b)
		return b
	}
	if n == 0 {
		return []byte{}
	}
	return popFresh(name, n)
}

func popFresh(name string, n int) []byte {
	if !st.freshBad && st.fresh < len(st.c.Fresh) {
		r := st.c.Fresh[st.fresh]
		b, _ := hex.DecodeString(r.Hex)
		if r.Name == name && len(b) == n {
			st.fresh++
			return b
		}
		if r.Name == name && name == "f:ct" {
			// numbers that were symbolic take as many digits as they need
			st.fresh++
			out := make([]byte, n)
			st.rng.Read(out)
			copy(out, b)
			return out
		}
		st.freshBad = true
		diverge("fresh value " + name + " where " + r.Name + " was recorded")
	}
	b := make([]byte, n)
	st.rng.Read(b)
	return b
}

// ResetFresh restarts the stream of ideal values (self-composition).
func ResetFresh() {
	if !st.ideal {
		return
	}
	if st.fresh < len(st.c.Fresh) && st.c.Fresh[st.fresh].Name == "reset" {
		st.fresh++
	} else {
		diverge("reset")
	}
	st.aes = nil
	for k := range st.hashIn {
		if !strings.HasPrefix(k, "pub:") {
			delete(st.hashIn, k)
		}
	}
}

// Hash is a collision-free random function of in.
func Hash(domain string, in []byte, n int) []byte {
	if n == 0 {
		return []byte{}
	}
	b := popFresh("f:hash:"+domain, n)
	k := fmt.Sprintf("%s/%d/%x", domain, n, in)
	if o, ok := st.hashIn[k]; ok {
		if !bytes.Equal(o, b) {
			return append([]byte(nil), o...)
		}
		return b
	}
	st.hashIn[k] = append([]byte(nil), b...)
	return b
}

// AESEnc and AESDec are the ideal block cipher.
func AESEnc(key, blk []byte) []byte { return aes("e", "d", key, blk) }
func AESDec(key, blk []byte) []byte { return aes("d", "e", key, blk) }

// aes takes the recorded value of a new block. Blocks that were there before keep theirs: the order of the calls can
// differ from the recorded one with the order in which maps are iterated.
func aes(dir, inv string, key, blk []byte) []byte {
	v := popFresh("f:aes", 16)
	if st.aesuf {
		return v
	}
	k := string(key) + string(blk)
	if o, ok := st.aes[dir+k]; ok {
		return append([]byte(nil), o...)
	}
	if st.aes == nil {
		st.aes = map[string][]byte{}
	}
	st.aes[dir+k] = append([]byte(nil), v...)
	st.aes[inv+string(key)+string(v)] = append([]byte(nil), blk...)
	return v
}

// Eq, EqStr, And, Or, Not build conditions without forking.
func Eq(a, b []byte) bool    { return bytes.Equal(a, b) }
func EqStr(a, b string) bool { return a == b }

// Same reports whether a and b are the same values on every execution of the path (never branches).
func Same(a, b []byte) bool { return bytes.Equal(a, b) }

// Find returns where in b the values of a are found first on every execution of the path, or -1 (never branches).
func Find(b, a []byte) int { return bytes.Index(b, a) }
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}
func Not(c bool) bool { return !c }

// Plain restricts s to characters that JSON writes as they are (printable ASCII without " \ < > &).
func Plain(s string) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c > 0x7e || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
			panic(stop{"plain"})
		}
	}
}

// Log prints in native runs.
func Log(a ...interface{}) {
	if os.Getenv("ND_LOG") != "" {
		fmt.Fprintln(os.Stderr, a...)
	}
}

// TempDir is a scratch directory removed after the run.
func TempDir() string {
	d, err := os.MkdirTemp("", "verif-h-")
	if err != nil {
		panic(err)
	}
	st.dirs = append(st.dirs, d)
	return d
}

// MapOrder makes map iteration order a choice (symbolic only).
func MapOrder(on bool) {}

// Opt switches an optional model on (symbolic only).
func Opt(name string) {
	if name == "aesuf" {
		st.aesuf = true
	}
}

// SetPreempt sets the number of preemptions explored; fine adds a scheduling point before every statement of the
// repository.
func SetPreempt(n int, fine bool) { st.fine = fine }

// ---- lockstep scheduler ----

// Acquire and Release tell the engine that what happened before a release of x happened before a later acquisition.
// Natively the locks of the stand-ins tell the race detector.
func Acquire(x interface{}) {}
func Release(x interface{}) {}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	s := st
	if s == nil || !s.inPar {
		return
	}
	s.count++
	id, ok := s.sched[s.count]
	if !ok {
		return
	}
	s.switchTo(id)
}

// Fine is a scheduling point at statement granularity.
//
//go:norace
func Fine() {
	if st != nil && st.fine {
		Yield()
	}
}

//go:norace
func (s *state) switchTo(id int) {
	me := s.cur
	var t *thread
	for _, x := range s.ths {
		if x.id == id && !x.done && (x.cond == nil || x.cond()) {
			t = x
		}
	}
	if t == nil {
		diverge("schedule")
		for _, x := range s.ths {
			if !x.done && (x.cond == nil || x.cond()) {
				t = x
			}
		}
	}
	if t == nil {
		s.out.Deadlock = true
		fail("deadlock: every thread is blocked")
		panic(stop{"deadlock"})
	}
	if t == me {
		return
	}
	s.cur = t
	raceHide()
	t.wake <- struct{}{}
	<-me.wake
	raceShow()
}

// WaitUntil blocks the thread until f holds.
//
//go:norace
func WaitUntil(f func() bool) {
	s := st
	if s == nil || !s.inPar {
		return
	}
	if f() {
		return
	}
	me := s.cur
	me.cond = f
	s.count++
	id, ok := s.sched[s.count]
	if !ok {
		id = -1
	}
	s.switchTo(id)
	me.cond = nil
}

// Par runs the functions as threads.
func Par(fs ...func()) {
	s := st
	s.count = 0
	main := &thread{id: 0, wake: make(chan struct{}, 1)}
	s.ths = []*thread{main}
	s.cur = main
	s.inPar = true
	var ended sync.WaitGroup
	ended.Add(len(fs))
	panics := make(chan interface{}, len(fs)+1)
	for i, f := range fs {
		f := f
		t := &thread{id: i + 1, wake: make(chan struct{}, 1)}
		s.ths = append(s.ths, t)
		go func() {
			raceHide()
			<-t.wake
			raceShow()
			func() {
				defer func() {
					if r := recover(); r != nil {
						panics <- r
					}
				}()
				f()
			}()
			ended.Done()
			raceHide()
			defer raceShow()
			t.done = true
			if len(panics) > 0 {
				s.cur = main
				main.wake <- struct{}{}
				return
			}
			s.count++
			id, ok := s.sched[s.count]
			if !ok {
				id = -1
			}
			var to *thread
			for _, x := range s.ths {
				if x.id == id && !x.done && (x.cond == nil || x.cond()) {
					to = x
				}
			}
			if to == nil {
				for _, x := range s.ths {
					if !x.done && (x.cond == nil || x.cond()) {
						to = x
					}
				}
			}
			if to == nil {
				s.out.Deadlock = true
				panics <- stop{"deadlock"}
				fail("deadlock: every thread is blocked")
				to = main
			}
			s.cur = to
			to.wake <- struct{}{}
		}()
	}
	alldone := func() bool {
		for _, t := range s.ths[1:] {
			if !t.done {
				return false
			}
		}
		return true
	}
	for !alldone() {
		main.cond = alldone
		s.count++
		id, ok := s.sched[s.count]
		if !ok {
			id = -1
		}
		s.switchTo(id)
		main.cond = nil
		if len(panics) > 0 {
			break
		}
	}
	s.inPar = false
	if len(panics) == 0 {
		ended.Wait()
	}
	select {
	case r := <-panics:
		panic(r)
	default:
	}
}
