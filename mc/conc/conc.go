// Package conc explores the interleavings of pairs of operations, in
// processes of their own, and looks for data races in them.
package conc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/engine"
	"verif/mc/sched"
)

// Op is an operation.  Make prepares it in one of two variants; what it
// returns is run as a thread, and gives a text which depends on nothing else.
type Op struct {
	Name string
	Make func(variant int, shared interface{}) func() string
	// Shared operations use the values which both threads have
	Shared bool
}

type job struct {
	A, B   int
	Mode   string // solo, cold, bound1, bound2
	At, Bt int
	Visits int
	Limit  int // seconds
}

type result struct {
	Schedules int
	Points    int
	Stuck     int
	Capped    bool
	Results   map[string]string // results of both threads: a schedule
	Trace     [2][]int32
	Races     int
	text      string
	crash     string
	silent    bool
}

const sep = "\x00|\x00"

// Suite is a set of operations
type Suite struct {
	Ops    []Op
	Shared func() interface{}
}

func (s *Suite) prepare(a, b int) (func() string, func() string) {
	var sh interface{}
	if s.Ops[a].Shared || s.Ops[b].Shared {
		sh = s.Shared()
	}
	return s.Ops[a].Make(0, sh), s.Ops[b].Make(1, sh)
}

// Worker performs a job, given as the second argument, in this process
func (s *Suite) Worker() {
	if len(os.Args) != 3 || os.Args[1] != "job" {
		return
	}
	var j job
	if err := json.Unmarshal([]byte(os.Args[2]), &j); err != nil {
		panic(err)
	}
	r := result{Results: map[string]string{}}
	end := time.Now().Add(time.Duration(j.Limit) * time.Second)
	run := func(a, b int, rec bool) [2][]int32 {
		f, g := s.prepare(j.A, j.B)
		res, tr, stuck := sched.Run(f, g, a, b, rec)
		again := [2]string{1: sched.Call(g)}
		again[0] = sched.Call(f)
		r.Schedules++
		r.Stuck += stuck
		// what the calls left behind: each of them again, one after the other
		k := res[0] + sep + res[1]
		if again[1] != res[1] || again[0] != res[0] {
			k += sep + again[0] + sep + again[1]
		}
		if _, ok := r.Results[k]; !ok && len(r.Results) < 20 {
			r.Results[k] = fmt.Sprintf("%d,%d", a, b)
		}
		return tr
	}
	switch j.Mode {
	case "solo":
		var sh interface{}
		if s.Ops[j.A].Shared {
			sh = s.Shared()
		}
		f := s.Ops[j.A].Make(j.At, sh)
		r.Results[sched.Call(f)] = "alone"
		r.Results[sched.Call(s.Ops[j.A].Make(j.At, sh))] = "again"
		r.Schedules = 2
	case "cold":
		r.Trace = run(j.At, j.Bt, j.At < 0)
	default:
		tr := run(-1, -1, true)
		pa, pb := points(tr[0], j.Visits), points(tr[1], j.Visits)
		r.Points = len(pa) + len(pb)
		for _, p := range pa {
			if r.Stuck > 3 || time.Now().After(end) {
				r.Capped = true
				break
			}
			run(p, -1, false)
			if j.Mode != "bound2" {
				continue
			}
			for _, q := range pb {
				run(p, q, false)
				if r.Stuck > 3 || time.Now().After(end) {
					r.Capped = true
					break
				}
			}
		}
	}
	r.Races = sched.Races()
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

// points are the places of a trace to change over at: the first visits of every statement and the last one
func points(tr []int32, visits int) []int {
	seen := map[int32]int{}
	last := map[int32]int{}
	for i, s := range tr {
		last[s] = i
	}
	var out []int
	for i, s := range tr {
		seen[s]++
		if seen[s] <= visits || last[s] == i {
			out = append(out, i)
		}
	}
	return out
}

// start performs a job in a process of its own.  The race detector's runtime
// sometimes (one process in some thousands) cannot map its memory and is ended by a signal
// without a word; it is started again then.  What the Go runtime ends says why.
func start(binary string, j job) *result {
	for i := 0; ; i++ {
		r, silent := start1(binary, j)
		if !silent {
			return r
		}
		if i == 9 {
			return &result{silent: true}
		}
	}
}

func start1(binary string, j job) (*result, bool) {
	arg, _ := json.Marshal(j)
	cmd := exec.Command(binary, "job", string(arg))
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0", "GOMAXPROCS=2")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	began := time.Now()
	t := time.AfterFunc(time.Duration(j.Limit+60)*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	t.Stop()
	r := &result{}
	r.text = errs.String()
	if err != nil || json.Unmarshal(out.Bytes(), r) != nil {
		r.crash = fmt.Sprintf("%v: %s", err, tail(r.text, 3000))
		x, ok := err.(*exec.ExitError)
		if ok && x.ExitCode() < 0 && time.Since(began) < time.Duration(j.Limit)*time.Second && (r.text == "" || strings.Contains(r.text, "ThreadSanitizer")) {
			return r, true
		}
	}
	return r, false
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return tail(s, 500)
	}
	s = s[i:]
	if k := strings.Index(s[1:], "=================="); k > 0 {
		s = s[:k]
	}
	return tail(s, 2500)
}

// Property makes the property of a suite
func (s *Suite) Property(id string, assume []string) *engine.Property {
	self, _ := os.Executable()
	racer := os.Getenv("CONC_RACE")
	var sites []string
	if b, err := os.ReadFile(os.Getenv("CONC_SITES")); err == nil {
		json.Unmarshal(b, &sites)
	}
	var once sync.Once
	solo := make([][2]string, len(s.Ops))
	var bad []string
	prepare := func() {
		once.Do(func() {
			var wg sync.WaitGroup
			sem := make(chan int, 8)
			var mu sync.Mutex
			for i := range s.Ops {
				for v := 0; v < 2; v++ {
					wg.Add(1)
					go func(i, v int) {
						defer wg.Done()
						sem <- 1
						defer func() { <-sem }()
						r := start(self, job{A: i, B: i, Mode: "solo", At: v, Limit: 60})
						mu.Lock()
						defer mu.Unlock()
						if r.crash != "" {
							bad = append(bad, s.Ops[i].Name+": "+r.crash)
							return
						}
						if len(r.Results) != 1 {
							bad = append(bad, fmt.Sprintf("%s gives another result the second time: %v", s.Ops[i].Name, r.Results))
							return
						}
						for k := range r.Results {
							solo[i][v] = k
						}
					}(i, v)
				}
			}
			wg.Wait()
		})
		if len(bad) > 0 {
			panic(fmt.Sprintf("alone: %v", bad))
		}
	}
	where := func(tr []int32, at string) string {
		i, err := strconv.Atoi(at)
		if err != nil || i < 0 || i >= len(tr) || int(tr[i]) >= len(sites) {
			return at
		}
		return at + " (" + sites[tr[i]] + ")"
	}
	check := func(c *engine.Ctx, j job, r *result) {
		sig := fmt.Sprintf("%s/%s", s.Ops[j.A].Name, s.Ops[j.B].Name)
		if r.silent {
			c.Outcome(fmt.Sprint("not run ", j))
			c.Logf("%s: the process cannot be started", sig)
			return
		}
		if r.crash != "" {
			c.Fail(sig, "the process ended: %s", r.crash)
		}
		c.Steps(int64(r.Schedules))
		want := solo[j.A][0] + sep + solo[j.B][1]
		for k, v := range r.Results {
			if k != want {
				p := strings.Split(v, ",")
				tr := start(self, job{A: j.A, B: j.B, Mode: "cold", At: -1, Bt: -1, Limit: 60}).Trace
				got := strings.Split(k, sep)
				later := ""
				if len(got) == 4 {
					later = fmt.Sprintf("; called again afterwards they give %q and %q", tail(got[2], 600), tail(got[3], 600))
				}
				c.Fail(sig, "changing over before statement %s of the first and %s of the second one, %s gives %q, alone %q; %s gives %q, alone %q%s",
					where(tr[0], p[0]), where(tr[1], p[1]), s.Ops[j.A].Name, tail(got[0], 600), tail(solo[j.A][0], 300), s.Ops[j.B].Name, tail(got[1], 600), tail(solo[j.B][1], 300), later)
			}
		}
		if r.Races > 0 {
			c.Fail(sig, "%s", raceText(r.text))
		}
		for k := range r.Results {
			c.Outcome(k)
		}
		c.Logf("%s and %s: %d schedules, %d change-over points, %d with a thread waiting for the other, cut short: %v", s.Ops[j.A].Name, s.Ops[j.B].Name, r.Schedules, r.Points, r.Stuck, r.Capped)
		if r.Capped {
			c.Outcome(fmt.Sprint("capped ", j))
		}
	}
	n := len(s.Ops)
	return &engine.Property{ID: id, Level: "model_checking", Rule: "every harness ran to the end of its space", Assume: assume,
		Harnesses: func(tier string) []engine.Harness {
			th := tier == "thorough"
			pair := func(c *engine.Ctx) (int, int) {
				p := c.Pick(n * n)
				return p / n, p % n
			}
			hs := []engine.Harness{
				{Name: "alone", About: fmt.Sprintf("each of %d operations in a process of its own, twice: the same result", n), Serial: true, Setup: prepare, Body: func(c *engine.Ctx) {
					i := c.Pick(n)
					c.Check(solo[i][0] != "" && !strings.HasPrefix(solo[i][0], "panic:"), s.Ops[i].Name, "gives %q", solo[i][0])
					c.Check(!strings.HasPrefix(solo[i][1], "panic:"), s.Ops[i].Name, "gives %q", solo[i][1])
					c.Outcome(solo[i][0])
					c.Logf("%s: %s", s.Ops[i].Name, tail(solo[i][0], 100))
				}},
				{Name: "races", About: "every ordered pair of operations in a fresh process with the race detector, one after the other and with one change-over in the middle of the first one; the detector sees no order between the threads but that which the code itself makes", Body: func(c *engine.Ctx) {
					a, b := pair(c)
					j := job{A: a, B: b, Mode: "cold", At: -1, Bt: -1, Limit: 100}
					r := start(racer, j)
					check(c, j, r)
					if a == b || th {
						j.At = len(r.Trace[0]) / 2
						check(c, j, start(racer, j))
					}
				}},
				{Name: "race-points", About: "the same at every first visit of a statement (thorough: three visits), within one process", Body: func(c *engine.Ctx) {
					a, b := pair(c)
					if !th && a != b && b != (a+1)%n {
						c.Stop()
					}
					j := job{A: a, B: b, Mode: "bound1", Visits: 1, Limit: 100}
					if th {
						j.Visits = 3
					}
					check(c, j, start(racer, j))
				}},
				{Name: "first-use", About: "every operation against itself with one change-over, in a process which did nothing before: at every first visit of a statement", Body: func(c *engine.Ctx) {
					a := c.Pick(n)
					r := start(self, job{A: a, B: a, Mode: "cold", At: -1, Bt: -1, Limit: 60})
					if r.crash != "" {
						c.Fail(s.Ops[a].Name, "the process ended: %s", r.crash)
					}
					ps := points(r.Trace[0], 1)
					if len(ps) == 0 {
						c.Stop()
					}
					j := job{A: a, B: a, Mode: "cold", At: ps[c.Pick(len(ps))], Bt: -1, Limit: 60}
					check(c, j, start(self, j))
				}},
				{Name: "one-change", About: "every ordered pair of operations with every point of change-over within the first one: the first 3 (thorough: 20) and last visits of every statement", Body: func(c *engine.Ctx) {
					a, b := pair(c)
					j := job{A: a, B: b, Mode: "bound1", Visits: 3, Limit: 100}
					if th {
						j.Visits = 20
					}
					check(c, j, start(self, j))
				}},
				{Name: "two-changes", About: "every operation against itself (thorough: every pair) with a change-over in the first one and one back, at the first and last visits of every statement", Body: func(c *engine.Ctx) {
					a, b := pair(c)
					if !th && a != b {
						c.Stop()
					}
					j := job{A: a, B: b, Mode: "bound2", Visits: 1, Limit: 60}
					check(c, j, start(self, j))
				}},
			}
			return hs
		}}
}
