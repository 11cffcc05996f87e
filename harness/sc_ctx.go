package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/solarisdb/solaris/golibs/chans"
	gctx "github.com/solarisdb/solaris/golibs/context"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/zsim/sctx"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/ssignal"
)

// ---------------------------------------------------------------- C18: contexts, sleeps, signals, channels

const ctxPrompt = 2 * time.Second

// cxCancel is a call that ends a context: it began at t0 and returned at t1 (0: not yet)
type cxCancel struct {
	t0, t1 int64
	e1     time.Duration
	err    error // what Err has to report if this one is the first
}

// cxNode is a context of the tree
type cxNode struct {
	n       int
	kind    string
	par     *cxNode
	ctx     context.Context
	cancel  func(err error)
	ch      chan struct{}
	cancels []*cxCancel
	first   error // what Err reported first
	firstT  int64
	from    time.Duration // the deadline
	expired bool
}

type cxWorld struct {
	c      *Ctx
	p      *proc
	nodes  []*cxNode
	sigs   int // signal contexts
	nerr   int
	closed map[*cxNode]bool
}

type cxKey int

func genCtx(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "contexts", seed)
	p.MaxSteps = 200_000
	n := 1 + r.Intn(5)
	p.P["nodes"] = n
	maxd := sim.Pick(r, 1, 20, 1000, 3000) // ms
	na := sim.Pick(r, 1, 2, 3, 4)
	p.P["maxd"] = maxd
	p.P["select"] = sim.Pick(r, 0, 0, 1, 3)
	for a := 0; a < na; a++ {
		var ops []Op
		for k := 1 + r.Intn(6); k > 0; k-- {
			o := Op{A: int64(r.Intn(n)), B: int64(r.Intn(maxd*1000 + 1)), N: int64(r.U64() >> 16)}
			o.K = sim.Pick(r, "cancel", "cancel", "watch", "watch", "sleep", "sleep", "pause", "poll", "signal", "value")
			if o.K == "sleep" && r.Pct(15) {
				o.B = -o.B
			}
			if o.K == "sleep" && r.Pct(20) {
				o.B = int64(sim.Pick(r, maxd, maxd/2, maxd*2)) * 1000
			}
			ops = append(ops, o)
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

func (w *cxWorld) build(i int, r *sim.Rng) *cxNode {
	n := &cxNode{n: i}
	if i > 0 && r.Pct(75) {
		n.par = w.nodes[r.Intn(i)]
	}
	parent := context.WithValue(context.Background(), cxKey(0), "root")
	if n.par != nil {
		parent = n.par.ctx
	}
	n.kind = sim.Pick(r, "err", "err", "err", "std", "deadline", "wrap", "signal")
	switch n.kind {
	case "err":
		ctx, cancel := gctx.WithCancelError(parent)
		n.ctx, n.cancel = ctx, func(err error) { cancel(err) }
	case "std":
		ctx, cancel := sctx.WithCancel(parent)
		n.ctx, n.cancel = ctx, func(error) { cancel() }
	case "deadline":
		d := us(int64(r.Intn(w.c.par("maxd")*1000 + 1)))
		n.from = sim.Mono() + d
		ctx, cancel := sctx.WithTimeout(parent, d)
		n.ctx, n.cancel = ctx, func(error) { cancel() }
		sim.AddTimer(max(n.from-sim.Mono(), 0), nil, n.expire)
	case "wrap":
		n.ch, n.par = make(chan struct{}), nil
		n.ctx, n.cancel = gctx.WrapChannel(n.ch), func(error) {
			if !w.closed[n] {
				w.closed[n] = true
				sim.Close[struct{}](n.ch)
			}
		}
	case "signal":
		n.par = nil
		n.ctx, n.cancel = gctx.NewSignalsContext(syscall.SIGUSR1, syscall.SIGHUP), func(error) {
			ssignal.Raise(syscall.SIGUSR1)
		}
		w.sigs++
	}
	return n
}

// expire notes that the deadline of the context may have passed
func (n *cxNode) expire() {
	if n.kind == "deadline" && !n.expired && sim.Mono() >= n.from {
		n.expired = true
		t := sim.Tick()
		n.cancels = append(n.cancels, &cxCancel{t0: t - 1, t1: t, e1: effNow(), err: context.DeadlineExceeded})
	}
}

// possible returns the errors which Err may report at the time t, and whether it has to report an error
func (n *cxNode) possible(now int64) (errs []error, must bool) {
	add := func(cs []*cxCancel) {
		for _, c := range cs {
			if c.t0 <= now {
				errs = append(errs, c.err)
			}
			if c.t1 != 0 && c.t1 < now && n.sync() {
				must = true
			}
		}
	}
	add(n.cancels)
	if n.par != nil {
		pe, _ := n.par.possible(now)
		errs = append(errs, pe...)
	}
	return
}

// sync: the context is done when its cancel function returns
func (n *cxNode) sync() bool { return n.kind != "signal" && n.kind != "deadline" }

// firstOnly drops what cannot be the first error: cancellations that began after another one had returned
func (n *cxNode) mayBeFirst(err error) bool {
	for k := n; k != nil; k = k.par {
		k.expire()
		for _, c := range k.cancels {
			if !sameErr(k, n, c.err, err) {
				continue
			}
			late := false
			for _, o := range n.cancels {
				// own cancellations take effect before they return
				late = late || n.sync() && o != c && o.t1 != 0 && o.t1 < c.t0
			}
			if !late {
				return true
			}
		}
	}
	return false
}

// sameErr: err reported by the node n is what the cancellation of k with the error e makes n report
func sameErr(k, n *cxNode, e, err error) bool { return err == e || errors.Is(err, e) }

func (w *cxWorld) check(n *cxNode, t0 int64) {
	had := n.first != nil
	err := n.ctx.Err()
	now := sim.Tick()
	if err == nil {
		if had {
			w.c.Fail("err", "the context %d (%s) reports no error after it reported %v", n.n, n.kind, n.first)
		}
		if _, must := n.possible(t0); must {
			w.c.Fail("err", "the context %d (%s) reports no error after its cancellation has returned", n.n, n.kind)
		}
		return
	}
	if n.first == nil {
		n.first, n.firstT = err, now
		if !n.mayBeFirst(err) {
			w.c.Fail("err", "the context %d (%s) reports %v, which is not the error of its first cancellation: %s", n.n, n.kind, err, n.history())
		}
	} else if n.first != err && n.first.Error() != err.Error() {
		w.c.Fail("err", "the context %d (%s) reports %v after %v", n.n, n.kind, err, n.first)
	}
}

func (n *cxNode) history() (s string) {
	for k := n; k != nil; k = k.par {
		for _, c := range k.cancels {
			s += fmt.Sprintf(" %d[%d-%d]:%v", k.n, c.t0, c.t1, c.err)
		}
	}
	return
}

func (w *cxWorld) doCancel(n *cxNode, r *sim.Rng) {
	k := &cxCancel{}
	var err error
	switch n.kind {
	case "err":
		if r.Pct(75) {
			w.nerr++
			err = &uerr{w.nerr}
			k.err = err
		} else {
			k.err = gerrors.ErrClosed
		}
	case "wrap":
		if w.closed[n] {
			return
		}
		k.err = gerrors.ErrClosed
	case "signal":
		// all the contexts for signals get it
		for _, x := range w.nodes {
			if x.kind == "signal" {
				x.cancels = append(x.cancels, &cxCancel{t0: sim.Tick(), t1: sim.Tick(), e1: effNow(), err: context.Canceled})
			}
		}
		n.cancel(nil)
		return
	default:
		k.err = context.Canceled
	}
	k.t0 = sim.Tick()
	n.cancels = append(n.cancels, k)
	n.cancel(err)
	k.e1, k.t1 = effNow(), sim.Tick()
	if n.sync() {
		if !isDone(n.ctx) {
			w.c.Fail("done", "the context %d (%s) is not done after its cancellation has returned", n.n, n.kind)
		}
		w.check(n, k.t1)
	}
}

func isDone(ctx context.Context) bool {
	return sim.Select(true, sim.R(ctx.Done())) == 0
}

// since returns when (effective time) the context had to begin to end, 0: not yet
func (n *cxNode) since() time.Duration {
	var e time.Duration
	for k := n; k != nil; k = k.par {
		for _, c := range k.cancels {
			if c.t1 != 0 && (e == 0 || c.e1 < e) {
				e = max(c.e1, 1)
			}
		}
	}
	return e
}

// started: some cancellation of the context or of its ancestors has begun
func (n *cxNode) started() bool {
	for k := n; k != nil; k = k.par {
		k.expire()
		if len(k.cancels) > 0 {
			return true
		}
	}
	return false
}

func (w *cxWorld) exec(o Op) {
	c := w.c
	r := sim.NewRng(hashSeed("cx", c.p.Seed+uint64(o.N)))
	n := w.nodes[int(o.A)%len(w.nodes)]
	switch o.K {
	case "pause":
		sim.Sleep(us(o.B))
	case "cancel":
		w.doCancel(n, r)
	case "signal":
		ssignal.Raise(sim.Pick(r, os.Signal(syscall.SIGUSR2), os.Signal(syscall.SIGTERM))) // nobody is interested
	case "poll":
		for i := 0; i < 3; i++ {
			t0 := sim.Tick()
			if isDone(n.ctx) {
				if !n.started() {
					c.Fail("done", "the context %d (%s) is done, but nobody has cancelled it", n.n, n.kind)
				}
				if n.ctx.Err() == nil {
					c.Fail("err", "the context %d (%s) is done and reports no error", n.n, n.kind)
				}
			} else if _, must := n.possible(t0); must {
				c.Fail("done", "the context %d (%s) is not done after its cancellation has returned", n.n, n.kind)
			}
			w.check(n, t0)
			sim.YS()
		}
	case "value":
		v, dl := n.ctx.Value(cxKey(0)), false
		want := any("root")
		var t, wt time.Time
		t, dl = n.ctx.Deadline()
		wdl := false
		for k := n; k != nil; k = k.par {
			if k.kind == "wrap" || k.kind == "signal" {
				want = nil
			}
			if k.kind == "deadline" {
				if x, ok := k.ctx.Deadline(); ok {
					wdl, wt = true, x
				}
				break
			}
		}
		for k := n; k != nil; k = k.par {
			if k.kind == "wrap" || k.kind == "signal" {
				want = nil
			}
		}
		if v != want {
			c.Fail("value", "the context %d (%s) has the value %v, not %v", n.n, n.kind, v, want)
		}
		if dl != wdl || dl && !t.Equal(wt) {
			c.Fail("deadline", "the context %d (%s) has the deadline %v %v, not %v %v", n.n, n.kind, t, dl, wt, wdl)
		}
	case "watch":
		e0 := effNow()
		sim.Recv(n.ctx.Done())
		e := effNow()
		if !n.started() {
			c.Fail("done", "the context %d (%s) is done, but nobody has cancelled it", n.n, n.kind)
			return
		}
		if s := n.since(); s != 0 && e-max(s, e0) > ctxPrompt {
			c.Fail("late", "the context %d (%s) is done %v after its cancellation", n.n, n.kind, e-max(s, e0))
		}
		if n.ctx.Err() == nil {
			c.Fail("err", "the context %d (%s) is done and reports no error", n.n, n.kind)
		}
		w.check(n, sim.Tick())
		c.Probe("done")
	case "sleep":
		d := us(o.B)
		t0, e0, j0, k0 := sim.Mono(), effNow(), sim.Jumped(), sim.Tick()
		err := gctx.Sleep(n.ctx, d)
		t1, e1 := sim.Mono(), effNow()
		switch {
		case err == nil:
			if d > 0 && t1-t0 < d {
				c.Fail("sleep", "a sleep for %v ends without an error after %v", d, t1-t0)
			}
			c.Probe("slept")
		case !n.started():
			c.Fail("sleep", "a sleep ends with the error %v, but its context %d (%s) was not cancelled", err, n.n, n.kind)
		default:
			if ce := n.ctx.Err(); ce != err && (ce == nil || ce.Error() != err.Error()) {
				c.Fail("sleep", "a sleep ends with the error %v, but its context %d (%s) reports %v", err, n.n, n.kind, ce)
			}
			c.Probe("sleep-cancelled")
		}
		over := e1 - e0 - max(d, 0)
		if over > ctxPrompt+sim.Jumped()-j0 {
			c.Fail("sleep", "a sleep for %v ends after %v", d, e1-e0)
		}
		if s := n.since(); s != 0 && k0 != 0 {
			if over := e1 - max(s, e0); over > ctxPrompt {
				c.Fail("sleep", "a sleep for %v ends %v after its context %d (%s) was cancelled", d, over, n.n, n.kind)
			}
		}
	}
}

// selects: one value to one of several receivers
func (w *cxWorld) selects(k int, r *sim.Rng) {
	c := w.c
	n := 1 + r.Intn(4)
	type ent struct {
		d    chans.WriteDesc[int]
		done chan struct{}
		ch   chan int
		got  []int
		// dead: the done channel is being closed, closed: it is
		dead, closed bool
	}
	es := make([]*ent, n)
	ds := make([]chans.WriteDesc[int], n)
	for i := range es {
		e := &ent{done: make(chan struct{}), ch: make(chan int, sim.Pick(r, 0, 0, 1))}
		es[i] = e
		ds[i] = chans.WriteDesc[int]{DoneChan: e.done, WrtChan: e.ch}
		d1, d2, mode := us(int64(r.Intn(3000))), us(int64(r.Intn(3000))), r.Intn(3)
		if i == 0 && mode == 2 {
			mode = r.Intn(2)
		}
		if mode == 0 {
			w.p.spawn("receiver", func() {
				sim.Sleep(d1)
				if v, ok := sim.Recv2((<-chan int)(e.ch)); ok {
					e.got = append(e.got, v)
				}
			})
		} else if mode == 1 {
			w.p.spawn("closer", func() {
				sim.Sleep(d2)
				e.dead = true
				sim.Close[struct{}](e.done)
				e.closed = true
			})
		}
	}
	w.p.spawn("writer", func() {
		idx, ok := chans.WriteToManyWithControl(ds, k+1)
		if idx < 0 || idx >= n {
			c.Fail("select", "WriteToManyWithControl returns the number %d for %d channels", idx, n)
			return
		}
		if !ok && !es[idx].dead {
			c.Fail("select", "WriteToManyWithControl tells that the channel %d is closed, but it is not", idx)
		}
		sim.Sleep(10 * time.Millisecond)
		// the receiver may be slow
		for j := 0; j < 500 && ok && len(es[idx].got)+sim.Len((<-chan int)(es[idx].ch)) == 0; j++ {
			sim.Sleep(10 * time.Millisecond)
		}
		for i, e := range es {
			// a buffered value that nobody has taken
			if sim.Len((<-chan int)(e.ch)) > 0 {
				e.got = append(e.got, sim.Recv((<-chan int)(e.ch)))
			}
			want := 0
			if ok && i == idx {
				want = 1
			}
			if len(e.got) != want || want == 1 && e.got[0] != k+1 {
				c.Fail("select", "WriteToManyWithControl returns %d %v for the value %d, the channel %d has got %v", idx, ok, k+1, i, e.got)
			}
			cl := e.closed
			if o := chans.IsOpened(e.done); o && cl || !o && !e.dead {
				c.Fail("select", "IsOpened is wrong")
			}
			if !chans.IsOpened(e.ch) {
				c.Fail("select", "IsOpened tells that an open channel is closed")
			}
			sim.Close[int](e.ch) // let the receiver go
			if chans.IsOpened(e.ch) {
				c.Fail("select", "IsOpened tells that a closed channel is open")
			}
		}
		c.Probe("select")
	})
}

func runCtx(c *Ctx) {
	w := &cxWorld{c: c, closed: map[*cxNode]bool{}}
	w.p = newProc(c, "proc", nil)
	r := sim.NewRng(hashSeed("ctx", c.p.Seed))
	w.p.do("build", time.Minute, func() {
		for i := 0; i < c.par("nodes"); i++ {
			w.nodes = append(w.nodes, w.build(i, r))
		}
	})
	if len(c.viol) > 0 {
		return
	}
	for i, ops := range c.p.Actors {
		ops := ops
		w.p.spawn(fmt.Sprintf("actor%d", i), func() {
			for _, o := range ops {
				w.exec(o)
			}
		})
	}
	for k := 0; k < c.par("select"); k++ {
		w.selects(k, r)
	}
	// whoever still waits is released in the end
	stopped := false
	w.p.spawn("closer", func() {
		sim.Sleep(time.Minute)
		for i := len(w.nodes) - 1; i >= 0; i-- {
			w.doCancel(w.nodes[i], r)
		}
		sim.Sleep(10 * time.Second)
		for _, n := range w.nodes {
			if !isDone(n.ctx) || n.ctx.Err() == nil {
				c.Fail("done", "the context %d (%s) is not done long after it was cancelled", n.n, n.kind)
			}
			w.check(n, sim.Tick())
		}
		stopped = true
	})
	if !w.p.join(10 * time.Minute) {
		return
	}
	if !stopped {
		c.HarnessError("the contexts are not stopped")
	}
	w.p.noTasks("all the contexts are done", 0)
}

func init() {
	register("contexts", []string{"C18"}, &scenario{gen: genCtx, run: runCtx})
	scnInfo["contexts"] = scnDesc{
		real:   []string{"golibs/context", "golibs/chans"},
		stub:   []string{"standard contexts, delivery of process signals (as the runtime does it: dropped if the channel is full)", "goroutine scheduler, channels, timers, clocks (simulated)"},
		assume: []string{"a task that is ready gets to run: 2 s of simulated time that was not skipped is the bound for cancellations and sleeps to take effect"},
	}
}
