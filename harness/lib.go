package main

import (
	"context"
	"fmt"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/zsim/sctx"
	"github.com/solarisdb/solaris/zsim/sim"
)

// proc is a simulated process which uses a library of the repository
type proc struct {
	c     *Ctx
	node  *sim.Node
	left  int
	done  chan struct{}
	ended bool
	hung  bool
}

func newProc(c *Ctx, name string, disk any) *proc {
	p := &proc{c: c, node: sim.NewNode(name, disk)}
	p.node.OnCrash(func() { p.finish() })
	return p
}

func (p *proc) finish() {
	if p.done != nil && !p.ended {
		p.ended = true
		sim.SendNow(p.done, struct{}{})
	}
}

// spawn starts a task of the process
func (p *proc) spawn(name string, f func()) {
	p.left++
	sim.GoNamed(name, p.node, func() {
		f()
		sim.Rel(unsafe.Pointer(p)) // as a wait group does
		p.left--
		if p.left == 0 {
			p.finish()
		}
	})
}

// join waits for all the spawned tasks; limit counts the time that was not skipped artificially
func (p *proc) join(limit time.Duration) bool {
	if p.left == 0 || p.node.Dead() {
		sim.Acq(unsafe.Pointer(p))
		return !p.node.Dead()
	}
	p.done, p.ended = make(chan struct{}, 1), false
	begin := effNow()
	var tm *sim.Timer
	var watch func()
	watch = func() {
		if used := effNow() - begin; used < limit {
			tm = sim.AddTimer(limit-used, nil, watch)
			return
		}
		p.hung = true
		p.finish()
	}
	tm = sim.AddTimer(limit, nil, watch)
	sim.Recv(p.done)
	sim.Acq(unsafe.Pointer(p))
	tm.Stop()
	p.panics()
	if p.hung {
		p.c.Fail("hang", "calls do not return: %v", sim.Blocked(p.node))
		return false
	}
	return !p.node.Dead()
}

func (p *proc) panics() {
	for _, pi := range p.node.Panics {
		p.c.Fail("panic", "panic in %s: %s\n%s", pi.Task, pi.Value, pi.Stack)
	}
	p.node.Panics = nil
}

// do runs f as a task of the process and waits for its end
func (p *proc) do(name string, limit time.Duration, f func()) bool {
	p.spawn(name, f)
	return p.join(limit)
}

// noTasks checks that the process has no tasks any more; the tasks get some time to end
func (p *proc) noTasks(what string, allowed int) {
	for i := 0; i < 60 && sim.Alive(p.node) > allowed; i++ {
		sim.Sleep(time.Second)
	}
	if n := sim.Alive(p.node); n > allowed {
		p.c.Fail("leak", "%s: %d tasks are left: %v", what, n, sim.AliveList(p.node))
	}
}

// effNow is the simulated time without the time skipped while tasks could run
func effNow() time.Duration { return sim.Mono() - sim.Jumped() }

// every calls f each d of simulated time until stop is called
func every(d time.Duration, f func()) (stop func()) {
	stopped := false
	var tick func()
	tick = func() {
		if stopped {
			return
		}
		f()
		sim.AddTimer(d, nil, tick)
	}
	sim.AddTimer(d, nil, tick)
	return func() { stopped = true }
}

// opCtx is the context of an operation; cancelled tells since when (effective time) it is cancelled
type opCtx struct {
	context.Context
	cancel    context.CancelFunc
	cancelled time.Duration // 0: not
}

// newOpCtx: mode 0 never cancelled, 1 cancelled before, n>=2 cancelled n microseconds later
func newOpCtx(mode int64) *opCtx {
	ctx, cancel := sctx.WithCancel(context.Background())
	o := &opCtx{Context: ctx, cancel: cancel}
	switch {
	case mode == 1:
		o.cancelled = effNow()
		cancel()
	case mode > 1:
		n := sim.CurNode()
		sim.AddTimer(time.Duration(mode)*time.Microsecond, n, func() {
			if o.cancelled == 0 {
				o.cancelled = effNow()
			}
			cancel()
		})
	}
	return o
}

// yields lets other tasks run n times and, if d>0, sleeps
func yields(n int, d time.Duration) {
	for ; n > 0; n-- {
		sim.YS()
	}
	if d > 0 {
		sim.Sleep(d)
	}
}

// uerr is an error with an identity
type uerr struct{ n int }

func (u *uerr) Error() string { return fmt.Sprintf("injected error %d", u.n) }
