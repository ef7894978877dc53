package main

import (
	"fmt"
	"runtime/debug"

	"vmc.local/rt"
)

// conc describes one concurrent test: setup is called before every execution
// and returns the threads; judge is called after it.
type conc struct {
	name   string
	setup  func() []func() interface{}
	judge  func(c *Ctx, res []interface{}, r rt.Result)
	budget uint64
}

// explore runs every schedule with at most k preemptions: each first thread,
// each step of the execution at which a preemption can happen, each thread it
// can go to. Every schedule is one case.
func explore(c *Ctx, t conc, k int) {
	if t.budget == 0 {
		t.budget = 3_000_000
	}
	n := 0
	one := func(first int, sw []rt.Switch) rt.Result {
		bodies := t.setup()
		n = len(bodies)
		res := make([]interface{}, len(bodies))
		bs := make([]func(), len(bodies))
		for i := range bodies {
			i := i
			bs[i] = func() {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case rt.Hang, rt.Deadlock:
							res[i] = fmt.Sprintf("panic: %v", r)
						default:
							res[i] = fmt.Sprintf("panic: %v", r)
							if c.verbose {
								fmt.Printf("thread %d: %v\n%s\n", i, r, debug.Stack())
							}
						}
					}
				}()
				res[i] = bodies[i]()
			}
		}
		saved := n
		r := rt.Run(bs, first, sw, t.budget)
		n = saved
		if c.curDesc != nil {
			if r.Deadlock {
				c.Failf("deadlock")
			}
			if r.Hang {
				c.Failf("does not terminate")
			}
			if !r.Deadlock && !r.Hang {
				t.judge(c, res, r)
			}
		}
		return r
	}
	// the lengths of the runs without preemption name the schedules
	c.curDesc = nil
	steps := uint64(0)
	bodies := t.setup()
	n = len(bodies)
	for first := 0; first < n; first++ {
		c.kase++ // a death in here is a case of its own
		c.mark()
		c.note(t.name + fmt.Sprintf(" first=%d no preemption", first))
		if r := one(first, nil); r.Steps > steps {
			steps = r.Steps
		}
	}
	steps += 6
	run := func(first int, sw []rt.Switch) {
		sw = append([]rt.Switch(nil), sw...)
		desc := func() string { return fmt.Sprintf("%s first=%d preemptions %v", t.name, first, sw) }
		c.Case(desc, func() {
			c.note(desc())
			r := one(first, sw)
			c.Trans(int(r.Steps))
		})
		c.curDesc = nil
	}
	var rec func(first int, sw []rt.Switch, from uint64, left int)
	rec = func(first int, sw []rt.Switch, from uint64, left int) {
		run(first, sw)
		if left == 0 {
			return
		}
		for s := from; s <= steps; s++ {
			for to := 0; to < n; to++ {
				last := first
				if len(sw) > 0 {
					last = sw[len(sw)-1].Thread
				}
				if to == last && n == 2 {
					continue
				}
				rec(first, append(sw[:len(sw):len(sw)], rt.Switch{Step: s, Thread: to}), s+1, left-1)
				if c.stopped || c.expired {
					return
				}
			}
		}
	}
	for first := 0; first < n; first++ {
		rec(first, nil, 1, k)
	}
}
