// Package sched runs a few goroutines one at a time and asks the explorer which one continues at every
// scheduling point. Control is handed over through plain variables in functions the race detector does not
// look at, so the handing over orders nothing in its eyes: every explored schedule is also checked for
// unsynchronised accesses.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// Instrumented is set by the instrumented copy of the code under check.
var Instrumented bool

// Coarse: the code under check starts goroutines or uses channels itself; only whole calls are scheduled.
var Coarse bool

var resets []func()

var generation uint64

// Generation counts the resets: what stand-ins keep from before the last one is gone.
//
//go:norace
func Generation() uint64 { return generation }

// RegisterReset adds a function that puts package variables of the code under check back to their initial values.
func RegisterReset(f func()) { resets = append(resets, f) }

// Reset makes the code under check as it was when the process started.
func Reset() {
	generation++
	for _, f := range resets {
		f()
	}
}

const (
	stRunning = iota
	stWaiting // for a lock; runnable again after Wake
	stDone
)

// all of these are read and written only by the one goroutine that has the turn
var (
	active  bool
	cur     int // whose turn: 0 the scheduler, n > 0 thread n
	asked   int // the thread that gave the turn to the scheduler
	why     int // what it asks
	budget  int // preemptions left
	n       int
	status  [8]int
	points  uint64
	aborted bool
	waiters int
	fine    bool
)

const (
	whyPreempt = iota
	whyBlocked
	whyDone
)

//go:norace
func waitTurn(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func giveTurn(me, to int) {
	cur = to
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func runnable(except int) int {
	k := 0
	for i := 1; i <= n; i++ {
		if i != except && status[i] == stRunning {
			k++
		}
	}
	return k
}

// Point is before a statement: the running thread may be preempted here when fine scheduling is on.
//
//go:norace
func Point() {
	if !active {
		return
	}
	points++
	if !fine {
		return
	}
	preempt()
}

// SyncPoint is before or after an operation goroutines synchronise with: the running thread may be preempted here.
//
//go:norace
func SyncPoint() {
	if !active {
		return
	}
	points++
	preempt()
}

//go:norace
func preempt() {
	if budget == 0 || runnable(cur) == 0 {
		return
	}
	me := cur
	asked, why = me, whyPreempt
	giveTurn(me, 0)
}

// Block is called by a thread that cannot go on until another one does something; false when nothing is scheduled.
//
//go:norace
func Block() bool {
	if !active {
		return false
	}
	me := cur
	status[me] = stWaiting
	waiters++
	asked, why = me, whyBlocked
	giveTurn(me, 0)
	if aborted {
		panic(deadlock{})
	}
	return true
}

// Wake lets waiting threads try again.
//
//go:norace
func Wake() {
	if !active || waiters == 0 {
		return
	}
	for i := 1; i <= n; i++ {
		if status[i] == stWaiting {
			status[i] = stRunning
		}
	}
	waiters = 0
}

// Active tells whether threads are scheduled now.
//
//go:norace
func Active() bool { return active }

type deadlock struct{}

//go:norace
func finished(me int) {
	status[me] = stDone
	asked, why = me, whyDone
	cur = 0
}

//go:norace
func start(threads, preemptions int, everyStatement bool) {
	fine = everyStatement
	n, budget, points, aborted, waiters, cur = threads, preemptions, 0, false, 0, 0
	for i := range status {
		status[i] = stRunning
	}
	active = !Coarse
}

//go:norace
func setTurn(to int) { cur = to }

//go:norace
func request() (thread, reason int) { return asked, why }

//go:norace
func spend() { budget-- }

//go:norace
func stop() uint64 { active = false; return points }

//go:norace
func isAborted() bool { return aborted }

//go:norace
func abort() {
	aborted, active = true, false
}

// Outcome of a controlled run.
type Outcome struct {
	Points   uint64
	Panics   []string // per thread, empty when it ended normally
	Deadlock bool
	Switches []string
}

// Run runs the bodies under control; choose(k) picks one of k ways to go on, the first is not to preempt.
func Run(bodies []func(), preemptions int, everyStatement bool, choose func(k int) int, tracing bool) (out Outcome) {
	out.Panics = make([]string, len(bodies))
	start(len(bodies), preemptions, everyStatement)
	var wg sync.WaitGroup
	for i, body := range bodies {
		wg.Add(1)
		go thread(i+1, body, &out.Panics[i], &wg)
	}
	// when the explorer ends this execution early, let the threads run to their ends
	defer func() {
		if v := recover(); v != nil {
			abort()
			finishAll()
			wg.Wait()
			panic(v)
		}
	}()
	next := 1 + choose(len(bodies))
	note := func(f string, a ...any) {
		if tracing {
			out.Switches = append(out.Switches, fmt.Sprintf(f, a...))
		}
	}
	note("thread %d starts", next)
	for {
		setTurn(next)
		waitTurn(0)
		me, reason := request()
		cand := candidates(me, reason == whyPreempt)
		if len(cand) == 0 {
			if allDone() {
				break
			}
			out.Deadlock = true
			abort()
			finishAll()
			break
		}
		k := choose(len(cand))
		next = cand[k]
		switch {
		case reason == whyPreempt && k > 0:
			spend()
			note("thread %d preempted at point %d, thread %d goes on", me, pointsNow(), next)
		case reason == whyBlocked:
			note("thread %d waits, thread %d goes on", me, next)
		case reason == whyDone:
			note("thread %d ended, thread %d goes on", me, next)
		}
	}
	out.Points = stop()
	wg.Wait()
	return out
}

func finishAll() {
	for _, t := range unfinished() {
		setTurn(t)
		waitTurn(0)
	}
}

//go:norace
func pointsNow() uint64 { return points }

//go:norace
func candidates(me int, meFirst bool) (c []int) {
	if meFirst {
		c = append(c, me)
	}
	for i := 1; i <= n; i++ {
		if status[i] == stRunning && !(meFirst && i == me) {
			c = append(c, i)
		}
	}
	return c
}

//go:norace
func allDone() bool {
	for i := 1; i <= n; i++ {
		if status[i] != stDone {
			return false
		}
	}
	return true
}

//go:norace
func unfinished() (c []int) {
	for i := 1; i <= n; i++ {
		if status[i] != stDone {
			c = append(c, i)
		}
	}
	return c
}

func thread(me int, body func(), failure *string, wg *sync.WaitGroup) {
	defer wg.Done()
	defer finished(me)
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(deadlock); ok {
				*failure = "waits for ever"
				return
			}
			*failure = fmt.Sprintf("panic: %v\n%s", v, firstFrames(string(debug.Stack())))
		}
	}()
	waitTurn(me)
	if isAborted() {
		return
	}
	body()
}

func firstFrames(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "query") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}
