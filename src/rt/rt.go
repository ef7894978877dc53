// Package rt is the runtime linked into instrumented code: logical clock,
// controlled scheduler, controlled map iteration order, variable registry.
//
// All bookkeeping runs in functions marked norace and communicates through
// plain memory, so that in a race build the hand-over from one explored
// thread to the next is invisible to the race detector: the only
// happens-before edges it sees are those of the code under test.
package rt

import (
	"runtime"
)

var (
	step  uint64
	limit uint64 = 1 << 62
	onHit func()
)

// Hang is the panic value raised when the step horizon is exceeded.
type Hang struct{ Steps uint64 }

func (h Hang) Error() string { return "step horizon exceeded (endless loop)" }

// P is one step of the logical clock.
//
//go:norace
func P() {
	step++
	if step >= limit {
		slow()
	}
}

// Begin starts a case with a step budget.
//
//go:norace
func Begin(budget uint64) { step = 0; limit = budget }

// End stops the budget and returns the steps taken.
//
//go:norace
func End() uint64 { limit = 1 << 62; return step }

// Steps returns the steps taken so far.
//
//go:norace
func Steps() uint64 { return step }

//go:norace
func slow() {
	if schedOn {
		schedSlow()
		return
	}
	s := step
	limit = 1 << 62
	panic(Hang{s})
}

// ---- controlled scheduler ----

const maxThreads = 16

type switchPoint struct {
	step   uint64
	thread int
}

var (
	schedOn   bool
	horizon   uint64
	nThreads  int
	cur       int
	finished  [maxThreads]bool
	blocked   [maxThreads]bool
	plan      [64]switchPoint
	nPlan     int
	atPlan    int
	deadlock  bool
	hung      bool
	abandoned bool
	nSwitch   int
	endStep   [maxThreads]uint64
)

// Switch is one forced preemption: at global step Step give the processor to Thread.
type Switch struct {
	Step   uint64
	Thread int
}

// Result describes one controlled execution.
type Result struct {
	Steps    uint64
	Deadlock bool
	Hang     bool
	Switches int
	Threads  int
	End      []uint64
}

//go:norace
func setLimit() {
	if atPlan < nPlan {
		limit = plan[atPlan].step
		if limit <= step {
			limit = step + 1
		}
		if limit > horizon {
			limit = horizon
		}
		return
	}
	limit = horizon
}

//go:norace
func schedSlow() {
	me := cur
	if step >= horizon {
		hung = true
		limit = 1 << 62
		panic(Hang{step})
	}
	to := plan[atPlan].thread
	atPlan++
	setLimit()
	if to < nThreads && to != me && !finished[to] && !blocked[to] {
		nSwitch++
		cur = to
		waitFor(me)
	}
}

//go:norace
func waitFor(me int) {
	for cur != me {
		runtime.Gosched()
		if deadlock {
			panic(Deadlock{})
		}
	}
}

// Deadlock is the panic value of threads that can never run again.
type Deadlock struct{}

func (Deadlock) Error() string { return "all threads blocked" }

// Block is called by the sync shims when the running thread cannot proceed.
//
//go:norace
func Block() {
	if !schedOn {
		P()
		runtime.Gosched()
		return
	}
	me := cur
	step++
	if step >= horizon {
		schedSlow()
	}
	blocked[me] = true
	next := pick(me)
	if next < 0 {
		deadlock = true
		panic(Deadlock{})
	}
	cur = next
	waitFor(me)
}

// Wake makes every blocked thread runnable again (it will retry).
//
//go:norace
func Wake() {
	if schedOn {
		for i := 0; i < nThreads; i++ {
			blocked[i] = false
		}
	}
}

//go:norace
func pick(me int) int {
	for i := 0; i < nThreads; i++ {
		if i != me && !finished[i] && !blocked[i] {
			return i
		}
	}
	return -1
}

//go:norace
func finish(me int) {
	finished[me] = true
	endStep[me] = step
	Wake()
	next := pick(me)
	if next >= 0 {
		cur = next
	} else {
		cur = -1
	}
}

// Go starts a thread of the code under test.
func Go(f func()) {
	if !on() {
		go f()
		return
	}
	id := newThread()
	done := make(chan struct{})
	addExtra(done)
	go func() {
		defer close(done)
		runThread(id, f)
	}()
}

var (
	extra  [maxThreads]chan struct{}
	nExtra int
)

//go:norace
func addExtra(c chan struct{}) {
	extra[nExtra] = c
	nExtra++
}

//go:norace
func getExtra(i int) chan struct{} {
	if i < nExtra {
		return extra[i]
	}
	return nil
}

//go:norace
func on() bool { return schedOn }

//go:norace
func newThread() int {
	if nThreads >= maxThreads {
		panic("rt: too many threads")
	}
	id := nThreads
	nThreads++
	finished[id] = false
	blocked[id] = false
	return id
}

func runThread(id int, f func()) {
	waitFor(id)
	defer finish(id)
	f()
}

// Run executes the bodies as threads under the given schedule. Bodies must
// recover their own panics. first is the thread that starts.
func Run(bodies []func(), first int, sw []Switch, budget uint64) Result {
	start(len(bodies), first, sw, budget)
	done := make([]chan struct{}, len(bodies))
	for i, b := range bodies {
		i, b := i, b
		done[i] = make(chan struct{})
		go func() {
			defer close(done[i])
			runThread(i, b)
		}()
	}
	for _, d := range done {
		<-d
	}
	for i := 0; ; i++ {
		d := getExtra(i)
		if d == nil {
			break
		}
		<-d
	}
	return stop()
}

//go:norace
func start(n, first int, sw []Switch, budget uint64) {
	nThreads = n
	nExtra = 0
	for i := range finished {
		finished[i] = false
		blocked[i] = false
		endStep[i] = 0
	}
	nPlan = len(sw)
	for i, s := range sw {
		plan[i] = switchPoint{s.Step, s.Thread}
	}
	atPlan = 0
	deadlock = false
	hung = false
	nSwitch = 0
	step = 0
	horizon = budget
	setLimit()
	schedOn = true
	cur = first
}

//go:norace
func stop() Result {
	schedOn = false
	limit = 1 << 62
	r := Result{Steps: step, Deadlock: deadlock, Hang: hung, Switches: nSwitch, Threads: nThreads}
	for i := 0; i < nThreads; i++ {
		r.End = append(r.End, endStep[i])
	}
	return r
}

// ---- registry of package-level variables ----

// Var is a registered package-level variable.
type Var struct {
	Pkg, Name string
	Ptr       interface{}
}

var vars []Var

// Reg registers a variable.
func Reg(pkg, name string, p interface{}) { vars = append(vars, Var{pkg, name, p}) }

// Vars lists the registered variables.
func Vars() []Var { return vars }

// Lookup returns the pointer to a registered variable or nil.
func Lookup(pkg, name string) interface{} {
	for _, v := range vars {
		if v.Pkg == pkg && v.Name == name {
			return v.Ptr
		}
	}
	return nil
}
