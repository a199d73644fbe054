// Package engine is a small stateless model checker.
//
// A harness is a function which drives the real code and its reference model
// in lockstep.  Every decision it takes goes through Ctx.Pick, so that one
// execution is identified by its list of choices; the engine enumerates every
// list (depth first, by replaying prefixes), in parallel over the first
// choices.  An execution fails when the harness calls Ctx.Fail or when the
// code under test panics where the harness does not expect it.
package engine

import (
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Harness is one closed system
type Harness struct {
	Name string
	// About says what is enumerated, in a line
	About string
	Body  func(*Ctx)
	// Serial harnesses are explored by one worker, while nothing else runs
	Serial bool
	// Setup runs once, before the exploration
	Setup func()
}

// Property is a set of harnesses
type Property struct {
	ID        string
	Level     string // model_checking or fault_enumeration
	Harnesses func(tier string) []Harness
	Assume    []string
	Rule      string
}

// Gather is the harnesses of other properties under their names
func Gather(props []*Property, ids []string, tier string) (hs []Harness) {
	for _, id := range ids {
		found := false
		for _, p := range props {
			if p.ID == id {
				found = true
				for _, h := range p.Harnesses(tier) {
					h.Name = id + "/" + h.Name
					hs = append(hs, h)
				}
			}
		}
		if !found {
			panic("no property " + id)
		}
	}
	return hs
}

// Failure is a violated property with the choices that lead there
type Failure struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Sig      string   `json:"signature"`
	Msg      string   `json:"message"`
	Choices  []int    `json:"choices"`
	Trace    []string `json:"trace"`
	Tier     string   `json:"tier"`
}

// Ctx is one execution
type Ctx struct {
	h        *run
	prefix   []int
	fan      []int // number of alternatives at each choice
	choices  []int
	trace    []string
	steps    int64
	failed   *Failure
	sample   bool
	pruned   bool
	rep      bool
	started  int64
	Scratch  interface{}
	visited  *shardSet
	outcomes *shardSet
}

type stop struct{}

type run struct {
	prop    *Property
	harness *Harness
	tier    string
	r       *Runner
}

// Pick returns a number in 0..n-1; the engine explores every one.
func (c *Ctx) Pick(n int) int {
	if n <= 0 {
		panic(stop{})
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("engine: replay diverged: choice %d is %d of %d", i, v, n))
		}
	}
	c.choices = append(c.choices, v)
	c.fan = append(c.fan, n)
	return v
}

// Bool is a two way Pick
func (c *Ctx) Bool() bool { return c.Pick(2) == 1 }

// Stop ends this execution (nothing more to do)
func (c *Ctx) Stop() { panic(stop{}) }

// Prune ends this execution and marks it as not counting: the state reached
// was already explored.
func (c *Ctx) Prune() {
	c.pruned = true
	panic(stop{})
}

// Step counts an operation performed on the real code and compared with the model
func (c *Ctx) Step() { c.steps++ }

// Steps counts several
func (c *Ctx) Steps(n int64) { c.steps += n }

// Logf adds to the trace, which is kept for replays and samples
func (c *Ctx) Logf(f string, a ...interface{}) {
	if c.sample || c.rep {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// Fail reports a violation; sig identifies the failing input, call or history.
func (c *Ctx) Fail(sig, f string, a ...interface{}) {
	if c.failed == nil {
		c.failed = &Failure{Sig: sig, Msg: fmt.Sprintf(f, a...)}
	}
	panic(stop{})
}

// Check is Fail if !ok
func (c *Ctx) Check(ok bool, sig, f string, a ...interface{}) {
	c.steps++
	if !ok {
		c.Fail(sig, f, a...)
	}
}

// State records a (canonical) state; it returns true the first time it is seen.
func (c *Ctx) State(s string) bool { return c.visited.add(s) }

// Outcome records an observation, for the count of distinct ones
func (c *Ctx) Outcome(s string) { c.outcomes.add(s) }

// Try runs f and returns the panic it raised, if any
func Try(f func()) (p interface{}) {
	defer func() {
		p = recover()
		if _, ok := p.(stop); ok {
			panic(p)
		}
	}()
	f()
	return nil
}

// NoPanic runs f, and fails if it panics
func (c *Ctx) NoPanic(sig string, f func()) {
	c.steps++
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				panic(p)
			}
			c.Fail(sig, "panic: %v\n%s", p, stack())
		}
	}()
	f()
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, "\n")
}

type shard struct {
	sync.Mutex
	m map[uint64]struct{}
}

type shardSet struct {
	seed  maphash.Seed
	n     int64
	full  int64
	parts [64]shard
}

const maxSet = 24 << 20

func newSet() *shardSet {
	s := &shardSet{seed: maphash.MakeSeed()}
	for i := range s.parts {
		s.parts[i].m = map[uint64]struct{}{}
	}
	return s
}

func (s *shardSet) add(k string) bool {
	h := maphash.String(s.seed, k)
	p := &s.parts[h&63]
	p.Lock()
	defer p.Unlock()
	if _, ok := p.m[h]; ok {
		return false
	}
	if atomic.LoadInt64(&s.n) >= maxSet {
		atomic.StoreInt64(&s.full, 1)
		return true
	}
	p.m[h] = struct{}{}
	atomic.AddInt64(&s.n, 1)
	return true
}

// Runner runs the harnesses of one property
type Runner struct {
	Dir      string // /verif
	Prop     *Property
	Tier     string
	Seed     int
	Deadline time.Time
	End      time.Time
	Workers  int
	Only     string

	mu       sync.Mutex
	failures map[string]*Failure
	execs    int64
	steps    int64
	points   int64
	samples  []interface{}
	known    map[string]string
	reports  []map[string]interface{}
	capped   int32
	start    time.Time
	viol     []*Failure
	knownHit map[string]*Failure
	enough   int32
}

func (r *Runner) exec(h *run, prefix []int, sample, rep bool, vis, outs *shardSet) (c *Ctx) {
	c = &Ctx{h: h, prefix: prefix, sample: sample, rep: rep, visited: vis, outcomes: outs}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				return
			}
			msg := fmt.Sprint(p)
			if strings.HasPrefix(msg, "engine:") {
				c.failed = &Failure{Sig: "nondeterminism", Msg: msg}
				return
			}
			st := stack()
			first := st
			if i := strings.IndexByte(first, '\n'); i > 0 {
				first = first[:i]
			}
			c.failed = &Failure{Sig: "panic:" + msg, Msg: "panic: " + msg + "\n" + st}
		}
	}()
	h.harness.Body(c)
	return c
}

// next is the following list of choices in depth first order, not going
// shallower than base; nil at the end
func next(c *Ctx, base int) []int {
	for i := len(c.choices) - 1; i >= base; i-- {
		if c.choices[i]+1 < c.fan[i] {
			n := make([]int, i+1)
			copy(n, c.choices[:i])
			n[i] = c.choices[i] + 1
			return n
		}
	}
	return nil
}

// failFast: the first violation is enough (for trials of planted changes)
var failFast = os.Getenv("VERIF_FAILFAST") != ""

const hangAfter = 150 * time.Second

func (r *Runner) fail(h *run, c *Ctx) {
	f := c.failed
	f.Property, f.Harness, f.Tier = r.Prop.ID, h.harness.Name, r.Tier
	f.Choices = append([]int{}, c.choices...)
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[f.Sig]; !ok && failFast {
		atomic.StoreInt32(&r.enough, 1)
	}
	key := h.harness.Name + "\x00" + f.Sig
	if o, ok := r.failures[key]; ok && len(o.Choices) <= len(f.Choices) {
		return
	}
	if len(r.failures) < 2000 {
		r.failures[key] = f
	}
}

// RunHarness explores one harness
func (r *Runner) RunHarness(hh Harness) {
	h := &run{prop: r.Prop, harness: &hh, tier: r.Tier, r: r}
	if hh.Setup != nil && !r.guard(hh.Name, hh.Setup) {
		return
	}
	vis, outs := newSet(), newSet()
	var execs, steps, points, pruned int64
	start := time.Now()
	account := func(c *Ctx) {
		if c.pruned || c.steps == 0 && c.failed == nil {
			atomic.AddInt64(&pruned, 1)
		} else {
			atomic.AddInt64(&execs, 1)
		}
		atomic.AddInt64(&steps, c.steps)
		atomic.AddInt64(&points, int64(len(c.choices)))
		if c.failed != nil {
			r.fail(h, c)
		}
	}
	// samples: a first few executions, logged
	// Build work items by expanding the tree's first levels.
	var items [][]int
	const target = 512
	r.execLogged(h)
	items = [][]int{nil}
	for depth := 0; depth < 3 && len(items) < target && !hh.Serial; depth++ {
		var nx [][]int
		leaf := true
		for _, it := range items {
			if len(it) < depth {
				nx = append(nx, it)
				continue
			}
			// dry run on throw-away state sets to learn the fan-out here
			c := r.exec(h, it, false, false, newDummy(), newDummy())
			if len(c.fan) <= depth {
				nx = append(nx, it)
				continue
			}
			leaf = false
			for v := 0; v < c.fan[depth]; v++ {
				n := append(append([]int{}, c.choices[:depth]...), v)
				nx = append(nx, n)
			}
		}
		items = nx
		if leaf {
			break
		}
	}
	var idx int64 = -1
	var stopped int32
	workers := r.Workers
	if hh.Serial {
		workers = 1
	}
	cur := make([]atomic.Pointer[hang], workers)
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(5 * time.Second):
			}
			for i := range cur {
				if p := cur[i].Load(); p != nil && time.Since(p.at) > hangAfter {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					r.mu.Lock()
					key := hh.Name + "\x00hang"
					r.failures[key] = &Failure{Property: r.Prop.ID, Harness: hh.Name, Sig: "no-termination", Tier: r.Tier,
						Msg:     fmt.Sprintf("an execution did not finish in %v; its choices begin %v\n%s", hangAfter, p.prefix, hungIn(string(buf))),
						Choices: p.prefix}
					r.mu.Unlock()
					r.Finish(true)
					os.Exit(r.Report())
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			n := 0
			for {
				i := atomic.AddInt64(&idx, 1)
				if i >= int64(len(items)) || atomic.LoadInt32(&stopped) != 0 {
					return
				}
				prefix := items[i]
				base := len(prefix)
				for prefix != nil || base == 0 {
					hg := &hang{time.Now(), prefix}
					cur[w].Store(hg)
					c := r.exec(h, prefix, false, false, vis, outs)
					cur[w].Store(nil)
					account(c)
					n++
					if n&63 == 0 && time.Now().After(r.Deadline) || atomic.LoadInt32(&r.enough) != 0 {
						atomic.StoreInt32(&stopped, 1)
					}
					if atomic.LoadInt32(&stopped) != 0 {
						return
					}
					prefix = next(c, base)
					if prefix == nil {
						break
					}
				}
			}
		}(w)
	}
	wg.Wait()
	close(done)
	if stopped != 0 {
		atomic.StoreInt32(&r.capped, 1)
	}
	r.execs += execs
	r.steps += steps
	r.points += points
	rep := map[string]interface{}{
		"harness": hh.Name, "about": hh.About, "executions": execs, "checked_steps": steps, "choice_points": points,
		"states": vis.n, "distinct_outcomes": outs.n, "choice_lists_without_a_case": pruned,
		"exhaustive": stopped == 0, "wall_s": time.Since(start).Seconds(),
	}
	if vis.full != 0 || outs.full != 0 {
		rep["state_count_capped_at"] = maxSet
	}
	r.reports = append(r.reports, rep)
	fmt.Printf("  %-28s executions=%d steps=%d states=%d outcomes=%d exhaustive=%v %.1fs\n", hh.Name, execs, steps, vis.n, outs.n, stopped == 0, time.Since(start).Seconds())
}

func hungIn(all string) string {
	for _, g := range strings.Split(all, "\n\n") {
		if strings.Contains(g, "/repo/") && strings.Contains(g, "engine.(*Runner).exec") {
			if len(g) > 3000 {
				g = g[:3000]
			}
			return g
		}
	}
	return ""
}

type hang struct {
	at     time.Time
	prefix []int
}

func newDummy() *shardSet { return newSet() }

func (r *Runner) execLogged(h *run) {
	c := r.exec(h, nil, true, false, newDummy(), newDummy())
	r.sampleFrom(h, c)
	// one more, from the far end of the first choice
	if len(c.fan) > 0 {
		p := []int{c.fan[0] / 2}
		c2 := r.exec(h, p, true, false, newDummy(), newDummy())
		r.sampleFrom(h, c2)
	}
}

func (r *Runner) sampleFrom(h *run, c *Ctx) {
	t := c.trace
	if len(t) > 12 {
		t = append(append([]string{}, t[:12]...), "...")
	}
	if len(c.choices) > 40 {
		c.choices = c.choices[:40]
	}
	r.samples = append(r.samples, map[string]interface{}{"harness": h.harness.Name, "choices": c.choices, "trace": t})
}

// Replay runs one execution with logging
func (r *Runner) Replay(f *Failure) int {
	for _, hh := range r.Prop.Harnesses(f.Tier) {
		if hh.Name != f.Harness {
			continue
		}
		if hh.Setup != nil {
			hh.Setup()
		}
		h := hh
		c := r.exec(&run{prop: r.Prop, harness: &h, tier: f.Tier, r: r}, f.Choices, false, true, newSet(), newSet())
		for _, l := range c.trace {
			fmt.Println("  ", l)
		}
		if c.failed != nil {
			fmt.Printf("REPRODUCED %s: %s\n", c.failed.Sig, c.failed.Msg)
			return 1
		}
		fmt.Println("the execution passed")
		return 0
	}
	fmt.Println("no such harness", f.Harness)
	return 2
}

// Main runs everything
func (r *Runner) Main() int {
	start := time.Now()
	r.failures = map[string]*Failure{}
	r.known = loadKnown(filepath.Join(r.Dir, "known-findings.txt"), r.Prop.ID)
	r.start = start
	var hs []Harness
	r.guard("setup", func() { hs = r.Prop.Harnesses(r.Tier) })
	for i, h := range hs {
		if r.Only != "" && r.Only != h.Name || atomic.LoadInt32(&r.enough) != 0 {
			continue
		}
		// what is left of the time is shared among the harnesses to come
		left := time.Until(r.End)
		share := left / time.Duration(len(hs)-i) * 2
		if share < time.Minute {
			share = time.Minute // one of many: most need little
		}
		r.Deadline = time.Now().Add(share)
		if r.Deadline.After(r.End) {
			r.Deadline = r.End
		}
		r.RunHarness(h)
	}
	r.Finish(false)
	return r.Report()
}

// guard runs what prepares an exploration with the code under test: that it panics
// or doesn't return there is a violation as well
func (r *Runner) guard(name string, f func()) (ok bool) {
	t := time.AfterFunc(hangAfter, func() {
		r.mu.Lock()
		r.failures[name+"\x00hang"] = &Failure{Property: r.Prop.ID, Harness: name, Sig: "no-termination", Tier: r.Tier,
			Msg: fmt.Sprintf("the preparation did not finish in %v", hangAfter)}
		r.mu.Unlock()
		r.Finish(true)
		os.Exit(r.Report())
	})
	defer t.Stop()
	defer func() {
		if p := recover(); p != nil {
			msg := fmt.Sprint(p)
			if fl, is := p.(*Failure); is {
				msg = fl.Msg
			}
			r.mu.Lock()
			defer r.mu.Unlock()
			r.failures[name+"\x00panic"] = &Failure{Property: r.Prop.ID, Harness: name, Sig: "setup-panic", Tier: r.Tier,
				Msg: "while preparing the exploration: " + msg + "\n" + stack()}
		}
	}()
	f()
	return true
}

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" ")
		sig, what := l, ""
		if i := strings.Index(l, " :: "); i >= 0 {
			sig, what = l[:i], l[i+4:]
		}
		m[sig] = what
	}
	return m
}
