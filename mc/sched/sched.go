// Package sched runs two pieces of instrumented code under a controlled
// schedule: one at a time, changing over exactly where the schedule says.
//
// The code under test is built from copies of its source files in which every
// statement is preceded by a call of Yield.  The change-over is hidden from
// the race detector, so that the accesses of the two threads are unordered in
// its view unless the code itself synchronizes them.
package sched

import (
	"fmt"
	"runtime/debug"
	"sync"
	"time"
)

type thread struct {
	n      int // statements so far
	at     int // change over before the statement of this number, -1: never
	trace  []int32
	gate   chan struct{}
	done   bool
	result string
	other  *thread
}

var (
	on        bool
	recording bool
	cur       *thread
	free      bool
	blocked   int
)

// patience is how long the other thread may take until it is taken to be
// waiting for this one
const patience = 400 * time.Millisecond

// Yield is called before every statement of the code under test
//
//go:norace
func Yield(site int32) {
	if !on {
		return
	}
	t := cur
	if t == nil || free {
		return
	}
	if recording && len(t.trace) < 1<<20 {
		t.trace = append(t.trace, site)
	}
	if t.n == t.at {
		t.n++
		change(t)
		return
	}
	t.n++
}

// change hands over to the other thread and waits until it is this one's turn again
//
//go:norace
func change(t *thread) {
	o := t.other
	if o.done {
		return
	}
	cur = o
	raceDisable()
	o.gate <- struct{}{}
	if !wait(t.gate) {
		// the other thread is stuck, presumably at a lock which this one holds:
		// let both run on their own
		free = true
		blocked++
	}
	raceEnable()
}

//go:norace
func wait(gate chan struct{}) bool {
	tm := time.NewTimer(patience)
	select {
	case <-gate:
		tm.Stop()
		return true
	case <-tm.C:
		return false
	}
}

//go:norace
func enter(t *thread) {
	raceDisable()
	<-t.gate
	raceEnable()
}

//go:norace
func leave(t *thread) {
	t.done = true
	o := t.other
	if !o.done {
		cur = o
		raceDisable()
		select {
		case o.gate <- struct{}{}:
		default:
		}
		raceEnable()
	}
}

// Call runs f and gives what it returned, or how it panicked
func Call(f func() string) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return f()
}

// Run executes the two functions as two threads: the first one up to its
// statement number a, then the second one up to its statement number b (-1 for
// none), then the rest of the first one and the rest of the second one.
// It gives their results, and the statements they executed if record is set.
func Run(f, g func() string, a, b int, record bool) (r [2]string, trace [2][]int32, stuck int) {
	t := &thread{at: a, gate: make(chan struct{}, 2)}
	u := &thread{at: b, gate: make(chan struct{}, 2)}
	t.other, u.other = u, t
	start(t, record)
	var wg sync.WaitGroup
	wg.Add(2)
	go body(t, f, &wg)
	go body(u, g, &wg)
	open(t)
	wg.Wait()
	stuck = stop()
	return [2]string{t.result, u.result}, [2][]int32{t.trace, u.trace}, stuck
}

func body(t *thread, f func() string, wg *sync.WaitGroup) {
	defer wg.Done()
	enter(t)
	s := Call(f)
	set(t, s)
	leave(t)
}

//go:norace
func set(t *thread, s string) { t.result = s }

//go:norace
func open(t *thread) {
	raceDisable()
	t.gate <- struct{}{}
	raceEnable()
}

//go:norace
func start(t *thread, record bool) {
	cur, recording, free, blocked, on = t, record, false, 0, true
}

//go:norace
func stop() int {
	on, cur = false, nil
	return blocked
}
