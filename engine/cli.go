package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"` // "finding" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

type ndCase struct {
	Harness string      `json:"harness"`
	Prop    string      `json:"property"`
	Mode    string      `json:"mode"`
	Tier    int         `json:"tier"`
	Inputs  []ReplayVal `json:"inputs"`
	Fresh   []ReplayVal `json:"fresh"`
	Msg     string      `json:"msg"`
	Reach   []string    `json:"reach"`
	Kind    string      `json:"kind"`
	Trace   string      `json:"trace,omitempty"`
	Outcome *ndOutcome  `json:"outcome,omitempty"`
}

type ndOutcome struct {
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic,omitempty"`
	Diverged string   `json:"diverged,omitempty"`
	Stopped  string   `json:"stopped,omitempty"`
	Reach    []string `json:"reach"`
	Deadlock bool     `json:"deadlock,omitempty"`
	Known    []string `json:"known,omitempty"`
	Timeout  bool     `json:"timeout,omitempty"`
	Races    []string `json:"races,omitempty"`
}

func cli(args []string) int {
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: engine check|run|list|replay ...")
		return 0
	}
	switch args[0] {
	case "check":
		return cmdCheck(args[1:])
	case "replay":
		return cmdReplay(args[1:])
	case "gen":
		return cmdGen(args[1:])
	case "list":
		return cmdList(args[1:])
	}
	fmt.Fprintln(os.Stderr, "unknown command", args[0])
	return 0
}

func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	e, _ := os.Executable()
	d := filepath.Dir(e)
	for d != "/" {
		if _, err := os.Stat(filepath.Join(d, "harness", "go.mod")); err == nil {
			return d
		}
		d = filepath.Dir(d)
	}
	return "/verif"
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// session is everything a run needs, rebuilt from the current tree.
type session struct {
	root, repo, scratch string
	eng                 *Engine
	native              string
	nativeErr           error
	nativeDone          chan struct{}
	loadTime            time.Duration
	replayMu            sync.Mutex
	replays             int
	overlay             string
	raceOnce            sync.Once
	racer               string
	raceErr             error
}

// harnessDir is a copy of the harness module whose replace directive names the tree under test.
func openSession() (*session, error) {
	s := &session{root: verifRoot(), repo: repoRoot(), nativeDone: make(chan struct{})}
	t0 := time.Now()
	d, err := os.MkdirTemp("", "verif-run-")
	if err != nil {
		return nil, err
	}
	s.scratch = d
	hd := filepath.Join(d, "harness")
	if out, err := exec.Command("cp", "-a", filepath.Join(s.root, "harness"), hd).CombinedOutput(); err != nil {
		return s, fmt.Errorf("copy: %s", out)
	}
	gm, err := os.ReadFile(filepath.Join(hd, "go.mod"))
	if err != nil {
		return s, err
	}
	gm = []byte(strings.ReplaceAll(string(gm), "=> /repo", "=> "+s.repo))
	if err := os.WriteFile(filepath.Join(hd, "go.mod"), gm, 0o600); err != nil {
		return s, err
	}
	ovd := filepath.Join(d, "ov")
	os.Mkdir(ovd, 0o700)
	ov, jf, err := makeOverlay(s.repo, ovd)
	if err != nil {
		return s, err
	}
	s.overlay = jf
	go func() {
		defer close(s.nativeDone)
		bin := filepath.Join(d, "native")
		c := exec.Command("go", "build", "-overlay", jf, "-o", bin, "./cmd/native")
		c.Dir = hd
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=0")
		out, err := c.CombinedOutput()
		if err != nil {
			s.nativeErr = fmt.Errorf("native build: %v\n%s", err, out)
		}
		s.native = bin
	}()
	s.eng, err = loadEngine(hd, ov, "./...")
	s.loadTime = time.Since(t0)
	return s, err
}

func (s *session) close() {
	<-s.nativeDone
	if s.scratch != "" {
		os.RemoveAll(s.scratch)
	}
}

// runNative replays one case; it returns nil when the process gave no answer.
func (s *session) runNative(c *ndCase, mode string) (*ndOutcome, string) {
	<-s.nativeDone
	if s.nativeErr != nil {
		return nil, s.nativeErr.Error()
	}
	bin, limit := s.native, "20"
	race := strings.HasPrefix(c.Msg, raceMsg)
	if race {
		s.raceOnce.Do(s.buildRacer)
		if s.raceErr != nil {
			return nil, s.raceErr.Error()
		}
		bin, limit = s.racer, "60"
	}
	s.replayMu.Lock()
	s.replays++
	n := s.replays
	s.replayMu.Unlock()
	cc := *c
	cc.Mode = mode
	f := filepath.Join(s.scratch, fmt.Sprintf("case%d.json", n))
	b, _ := json.Marshal(&cc)
	os.WriteFile(f, b, 0o600)
	defer os.Remove(f)
	tmp := filepath.Join(s.scratch, fmt.Sprintf("tmp%d", n))
	os.Mkdir(tmp, 0o700)
	defer os.RemoveAll(tmp)
	cmd := exec.Command("timeout", "-k", "1", limit, bin, f)
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GORACE=exitcode=0 history_size=3")
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if os.Getenv("ND_LOG") != "" {
		cmd.Stderr = os.Stderr
	}
	err := cmd.Run()
	var o ndOutcome
	if json.Unmarshal([]byte(so.String()), &o) == nil && so.Len() > 0 {
		if race {
			o.Races = races(se.String())
		}
		return &o, ""
	}
	msg := se.String()
	if len(msg) > 400 {
		msg = msg[:400]
	}
	// a crash that recover cannot stop (fatal error, panic in another goroutine)
	if i := strings.Index(msg, "fatal error:"); i >= 0 {
		return &ndOutcome{Panic: strings.SplitN(msg[i:], "\n", 2)[0]}, ""
	}
	if strings.HasPrefix(msg, "panic:") {
		return &ndOutcome{Panic: strings.SplitN(msg, "\n", 2)[0]}, ""
	}
	if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 124 || ee.ExitCode() == 137) {
		return &ndOutcome{Timeout: true}, ""
	}
	return nil, fmt.Sprintf("no answer: %v %s", err, msg)
}

const endless = "the call does not end"

// probed tells what a native run that continues a path beyond what could be encoded shows.
func probed(o *ndOutcome) string {
	if o == nil {
		return ""
	}
	for _, m := range o.Failed {
		known := false
		for _, k := range o.Known {
			known = known || k == m
		}
		if !known {
			return m
		}
	}
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	return ""
}

// reproduces decides whether the native run shows the violation.
func reproduces(o *ndOutcome, msg string) bool {
	if o == nil {
		return false
	}
	if strings.HasPrefix(msg, "panic: ") {
		if strings.Contains(msg, "waits forever") {
			return o.Timeout
		}
		return o.Panic != ""
	}
	if msg == endless {
		return o.Timeout || strings.Contains(o.Panic, "stack overflow") || strings.Contains(o.Panic, "stack exceeds")
	}
	if strings.HasPrefix(msg, raceMsg) {
		return len(o.Races) > 0
	}
	for _, m := range o.Failed {
		if m == msg {
			return true
		}
	}
	return false
}

// buildRacer builds the native replayer with the race detector.
func (s *session) buildRacer() {
	s.racer = filepath.Join(s.scratch, "racer")
	c := exec.Command("go", "build", "-race", "-gcflags=all=-d=checkptr=0", "-overlay", s.overlay, "-o", s.racer, "./cmd/native")
	c.Dir = filepath.Join(s.scratch, "harness")
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "CGO_ENABLED=1")
	if out, err := c.CombinedOutput(); err != nil {
		s.raceErr = fmt.Errorf("build with the race detector: %v\n%s", err, out)
	}
}

// races picks from the race detector's reports those in which both accesses are the repository's own.
func races(out string) []string {
	var res []string
	for _, rep := range strings.Split(out, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		var at []string
		for _, sec := range strings.Split(rep, "\n\n") {
			ls := strings.Split(strings.TrimSpace(sec), "\n")
			if strings.HasPrefix(ls[0], "WARNING") {
				ls = ls[1:]
			}
			if len(ls) == 0 || !strings.Contains(ls[0], " at 0x") {
				continue
			}
			for i := 1; i+1 < len(ls); i += 2 {
				f := strings.TrimSpace(ls[i])
				if strings.HasPrefix(f, "verif/") {
					break
				}
				if strings.Contains(f, repoMod) {
					w, _, _ := strings.Cut(ls[0], " at 0x")
					at = append(at, strings.TrimSpace(w)+" in "+f+" "+strings.TrimSpace(ls[i+1]))
					break
				}
			}
		}
		if len(at) == 2 {
			res = append(res, strings.Join(at, "; "))
		}
	}
	return res
}

func cmdList(args []string) int {
	s, err := openSession()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 0
	}
	defer s.close()
	for _, p := range sortedProps(s.eng) {
		for _, h := range s.eng.props[p] {
			fmt.Println(p, h.Name, h.Share, h.Tier, h.Doc)
		}
	}
	return 0
}

func sortedProps(e *Engine) []string {
	var ps []string
	for p := range e.props {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

// cmdGen rewrites the table of harnesses.
func cmdGen(args []string) int {
	root := verifRoot()
	fs, _ := filepath.Glob(filepath.Join(root, "harness/h/*.go"))
	var names []string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		ls := strings.Split(string(b), "\n")
		for i, l := range ls {
			if strings.HasPrefix(l, "//prop: ") {
				for j := i + 1; j < len(ls); j++ {
					if n, ok := strings.CutPrefix(ls[j], "func "); ok {
						names = append(names, n[:strings.Index(n, "(")])
						break
					}
				}
			}
		}
	}
	sort.Strings(names)
	out := "// Code generated by \"engine gen\"; DO NOT EDIT.\n\npackage h\n\n// Harnesses maps names to harnesses, for native replays.\nvar Harnesses = map[string]func(){\n"
	for _, n := range names {
		out += "\t\"" + n + "\": " + n + ",\n"
	}
	out += "}\n"
	f := filepath.Join(root, "harness/h/registry.go")
	if err := os.WriteFile(f, []byte(out), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return 0
}

func cmdReplay(args []string) int {
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: engine replay FILE")
		return 0
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 0
	}
	var c ndCase
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 0
	}
	s, err := openSession()
	defer s.close()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 0
	}
	for _, m := range []string{"real", "ideal"} {
		o, e := s.runNative(&c, m)
		j, _ := json.Marshal(o)
		fmt.Println(m, string(j), e, "reproduces:", reproduces(o, c.Msg))
	}
	return 0
}

type harnessReport struct {
	Harness     string         `json:"harness"`
	Doc         string         `json:"what"`
	Paths       int            `json:"paths"`
	Complete    int            `json:"paths_complete"`
	Infeasible  int            `json:"paths_cut_by_assumptions"`
	Steps       int64          `json:"ssa_steps"`
	Asserts     int64          `json:"assertions"`
	Queries     int64          `json:"queries"`
	Solver      float64        `json:"solver_seconds"`
	Wall        float64        `json:"wall_seconds"`
	Exhausted   bool           `json:"all_paths_explored"`
	Incomplete  map[string]int `json:"reduced_bound,omitempty"`
	Details     []string       `json:"reduced_bound_details,omitempty"`
	Reach       map[string]int `json:"reached"`
	Witnesses   int            `json:"witness_paths"`
	Validated   int            `json:"witness_paths_matching_native"`
	Mismatch    []string       `json:"witness_mismatch,omitempty"`
	Unconfirmed []string       `json:"unconfirmed_counterexamples,omitempty"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ContinueOnError)
	prop := fs.String("prop", "", "property")
	tierS := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("harness", "", "only this harness")
	budget := fs.Float64("budget", 0, "seconds")
	solver := fs.String("solver", "z3-new", "solver")
	nw := fs.Int("workers", runtime.NumCPU(), "workers")
	noEv := fs.Bool("noevidence", false, "do not write evidence")
	if err := fs.Parse(args); err != nil {
		return 0
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := 0
	if *tierS == "thorough" {
		tier = 1
	}
	if *budget == 0 {
		*budget = 100
		if tier == 1 {
			*budget = 600
		}
	}
	start := time.Now()
	s, err := openSession()
	defer s.close()
	if err != nil {
		fmt.Println("NOT-DECIDED: the tree under test could not be loaded:", err)
		if !*noEv {
			writeEvidence(s, *prop, *tierS, tier, nil, nil, nil, time.Since(start), *budget, err.Error(), nil)
		}
		return 0
	}
	var kfs []knownFinding
	if b, err := os.ReadFile(filepath.Join(s.root, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &kfs); err != nil {
			fmt.Println("known-findings.json:", err)
		}
	}
	listed := map[string]*knownFinding{}
	for i := range kfs {
		if kfs[i].Status == "finding" {
			listed[kfs[i].ID] = &kfs[i]
		}
	}
	var hs []*Harness
	total := 0.0
	for _, h := range s.eng.props[*prop] {
		if h.Tier > tier || *only != "" && h.Name != *only {
			continue
		}
		hs = append(hs, h)
		total += h.Share
	}
	workers := make([]*Worker, *nw)
	for i := range workers {
		workers[i] = newWorker(i, s.eng, *solver)
	}
	defer func() {
		for _, w := range workers {
			w.solver.Close()
		}
	}()
	var reports []*harnessReport
	fns := map[string]bool{}
	var samples []interface{}
	seenKF := map[string]bool{}
	exit := 0
	left := *budget
	var violations []string
	for hi, h := range hs {
		alloc := left * h.Share / total
		total -= h.Share
		opts := pathOpts{preempt: 2}
		run, err := s.eng.newRun(h.Name, time.Now().Add(time.Duration(alloc*float64(time.Second))), opts, seed+uint64(hi))
		if err != nil {
			continue
		}
		run.tier = tier
		rep := &harnessReport{Harness: h.Name, Doc: h.Doc}
		var mu sync.Mutex
		confirmed := 0
		run.cb = func(v *Violation) bool {
			c := &ndCase{Harness: h.Name, Prop: *prop, Tier: tier, Inputs: v.Inputs, Fresh: v.Fresh, Msg: v.Msg, Kind: "violation", Trace: v.Trace}
			var o *ndOutcome
			var why string
			modes := []string{"real", "ideal", "ideal", "ideal", "ideal"}
			if v.Probe {
				o, _ := s.runNative(c, "real")
				m := probed(o)
				if m == "" {
					return false
				}
				v.Msg, c.Msg, c.Kind, modes = m, m, "violation", modes[:1]
			}
			for _, m := range modes {
				c.Mode = m
				var e string
				o, e = s.runNative(c, m)
				if reproduces(o, v.Msg) && (m == "real" || o.Diverged == "") {
					v.Replayed = m
					break
				}
				j, _ := json.Marshal(o)
				why += m + ": " + string(j) + " " + e + "; "
			}
			mu.Lock()
			defer mu.Unlock()
			if v.Replayed == "" {
				if len(rep.Unconfirmed) < 20 {
					rep.Unconfirmed = append(rep.Unconfirmed, v.Msg+v.Trace+" -- "+why)
				}
				if os.Getenv("GOSYM_KEEP") != "" {
					b, _ := json.MarshalIndent(c, "", " ")
					os.WriteFile(filepath.Join(os.Getenv("GOSYM_KEEP"), fmt.Sprintf("unconf-%s-%d.json", h.Name, len(rep.Unconfirmed))), b, 0o644)
				}
				return false
			}
			c.Outcome = o
			if kf := listed[v.KF]; v.KF != "" && kf != nil && kf.Property == *prop {
				if !seenKF[v.KF] {
					seenKF[v.KF] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, kf.ID, kf.What)
				}
				return false
			}
			confirmed++
			if confirmed == 1 {
				dir := filepath.Join(s.root, "out")
				os.MkdirAll(dir, 0o755)
				file := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *prop, h.Name))
				b, _ := json.MarshalIndent(c, "", " ")
				os.WriteFile(file, b, 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
				fmt.Printf("  %s: %s (replayed with %s primitives)\n  %s\n", h.Name, v.Msg, v.Replayed, v.Trace)
				violations = append(violations, v.Msg)
				exit = 1
			}
			return true
		}
		q0, t0 := statsNow()
		ts := time.Now()
		run.execute(workers)
		wall := time.Since(ts).Seconds()
		left -= wall
		if left < 1 {
			left = 1
		}
		q1, t1 := statsNow()
		rep.Paths, rep.Complete, rep.Infeasible, rep.Steps, rep.Asserts = run.paths, run.complete, run.assumed, run.steps, run.asserts
		rep.Queries, rep.Solver, rep.Wall = q1-q0, t1-t0, wall
		rep.Incomplete, rep.Reach = run.incomplete, run.reach
		if run.timedOut {
			rep.Incomplete["time budget: paths left unexplored"] = len(run.queue)
		}
		rep.Exhausted = !run.timedOut && len(rep.Incomplete) == 0 && exit == 0
		for d := range run.incDetail {
			rep.Details = append(rep.Details, d)
		}
		sort.Strings(rep.Details)
		if len(rep.Details) > 12 {
			rep.Details = rep.Details[:12]
		}
		for _, f := range run.repoFns() {
			fns[f] = true
		}
		// the translation is validated: witness paths are run natively and must visit the same points
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		rep.Witnesses = len(run.wit)
		for _, w := range run.wit {
			w := w
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				c := &ndCase{Harness: h.Name, Prop: *prop, Tier: tier, Inputs: w.Inputs, Fresh: w.Fresh, Reach: w.Reach, Kind: "witness"}
				// map iteration order differs from run to run
				var o *ndOutcome
				var e string
				for try := 0; try < 8; try++ {
					o, e = s.runNative(c, "ideal")
					if o != nil && o.Diverged == "" && strings.Join(o.Reach, ",") == strings.Join(w.Reach, ",") && len(o.Failed) == 0 {
						break
					}
				}
				mu.Lock()
				defer mu.Unlock()
				if o != nil && o.Panic == "" && o.Diverged == "" && strings.Join(o.Reach, ",") == strings.Join(w.Reach, ",") && len(o.Failed) == 0 {
					rep.Validated++
					if len(samples) < 10 {
						samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": trimVals(w.Inputs), "reached": w.Reach})
					}
				} else if len(rep.Mismatch) < 8 {
					j, _ := json.Marshal(o)
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("symbolic %v native %s %s", w.Reach, j, e))
					if os.Getenv("GOSYM_KEEP") != "" {
						b, _ := json.MarshalIndent(c, "", " ")
						os.WriteFile(filepath.Join(os.Getenv("GOSYM_KEEP"), fmt.Sprintf("wit-%s-%d.json", h.Name, len(rep.Mismatch))), b, 0o644)
					}
				}
			}()
		}
		wg.Wait()
		reports = append(reports, rep)
		fmt.Printf("%s %s: %d paths (%d complete, %d infeasible), %d assertions, %d queries, %.1fs solver, %.1fs, exhausted=%v, witnesses %d/%d\n",
			*prop, h.Name, rep.Paths, rep.Complete, rep.Infeasible, rep.Asserts, rep.Queries, rep.Solver, rep.Wall, rep.Exhausted, rep.Validated, rep.Witnesses)
		for k, n := range rep.Incomplete {
			fmt.Printf("  reduced bound: %s (%d)\n", k, n)
		}
		if os.Getenv("GOSYM_V") != "" {
			for _, d := range rep.Details {
				fmt.Println("   ", d)
			}
			for _, d := range rep.Mismatch {
				fmt.Println("    mismatch:", d)
			}
			fmt.Println("    reach:", rep.Reach)
		}
		for _, d := range rep.Unconfirmed {
			if os.Getenv("GOSYM_V") != "" {
				fmt.Println("    unconfirmed:", d)
			}
		}
		if exit != 0 {
			break
		}
	}
	if !*noEv {
		writeEvidence(s, *prop, *tierS, tier, reports, fns, samples, time.Since(start), *budget, "", violations)
	}
	if exit == 0 {
		fmt.Printf("%s: held on everything explored (%.1fs)\n", *prop, time.Since(start).Seconds())
	}
	return exit
}

func trimVals(v []ReplayVal) []ReplayVal {
	if len(v) > 12 {
		v = v[:12]
	}
	return v
}

func statsNow() (q int64, t float64) {
	return atomic.LoadInt64(&solverStats.Queries), float64(atomic.LoadInt64(&solverStats.Nanos)) / 1e9
}

var engineAssumptions = []string{
	"go/ssa (golang.org/x/tools) is the compiler front end; the executor interprets its instructions over bit-vector terms and SMT solvers decide every branch and assertion (z3-new incrementally, one process per worker; slow queries by z3-new and cvc5 in parallel)",
	"cryptographic primitives below the repository are ideal: AES is a family of permutations with random values, AES-GCM a perfect AEAD (key-stream reuse modelled on nonce reuse), SHA-3/cSHAKE/PBKDF2 collision-free random functions, crypto/rand and UUIDv4 never repeat a value of 8 bytes or more",
	"json-iterator and encoding/json are modelled over symbolic bytes after their documented output, bbolt as a transactional map, zerolog as silent; the models are validated by replaying witness paths natively against the real libraries",
	"lengths are concrete on each path, contents symbolic; loops are unrolled completely within the step bound, a path that exceeds it is reported under reduced_bound",
}

func writeEvidence(s *session, prop, tierName string, tier int, reps []*harnessReport, fns map[string]bool, samples []interface{}, wall time.Duration, budget float64, loadErr string, viol []string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	if tier == 1 {
		tierName = "thorough"
	} else {
		tierName = "quick"
	}
	var paths, validated, wits, complete int
	var steps, asserts, queries int64
	var solver float64
	exh := len(reps) > 0
	for _, r := range reps {
		paths += r.Paths
		complete += r.Complete
		steps += r.Steps
		asserts += r.Asserts
		queries += r.Queries
		solver += r.Solver
		validated += r.Validated
		wits += r.Witnesses
		exh = exh && r.Exhausted
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"states":                        complete,
		"transitions":                   steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    exh,
		"explanation":                   "states: symbolic paths through the real code that ran to the end, each standing for all inputs that satisfy its path condition; transitions: SSA instructions executed symbolically; traces_validated_against_impl: solver models of complete paths run natively against the real code that visited the same points",
		"paths_started":                 paths,
		"assertions_decided":            asserts,
		"queries_discharged":            queries,
		"solver_seconds":                solver,
		"witness_paths":                 wits,
		"functions_encoded":             fl,
		"harnesses":                     reps,
		"budget_seconds":                budget,
		"engine_load_seconds":           s.loadTime.Seconds(),
	}
	if loadErr != "" {
		cov["not_decided"] = loadErr
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tierName, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": engineAssumptions, "wall_s": wall.Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(s.root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
