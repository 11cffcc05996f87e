package main

import (
	"fmt"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/golibs/timeout"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- C17: delayed calls

type tmCall struct {
	n         int
	d         time.Duration
	busy      time.Duration
	fu        timeout.Future
	at        time.Duration // monotonic time just before Call
	made      time.Duration // Call returned
	dueEff    time.Duration // effective time when it was due
	due       bool
	debt0     time.Duration // debt counter at the due time
	runs      int
	start     time.Duration
	end       time.Duration
	cancelled bool          // Cancel was called
	cancelRet time.Duration // monotonic time when the first Cancel returned, 0: not yet
	kids      []Op
}

type tmWorld struct {
	c       *Ctx
	p       *proc
	calls   []*tmCall
	running int
	maxRun  int
	// debt is the effective time during which fewer than maxWorkers callbacks were running
	debt  time.Duration
	last  time.Duration
	left  int
	added int
}

const (
	tmWorkers = 10
	tmLate    = 2 * time.Second
)

func genTimeout(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "timeout", seed)
	p.MaxSteps = 600_000
	na := sim.Pick(r, 1, 1, 2, 3)
	p.Actors = make([][]Op, na)
	dmax := sim.Pick(r, 5, 200, 20_000, 100_000) // ms
	bmax := sim.Pick(r, 0, 1, 100, 30_000, 120_000)
	busyPct := sim.Pick(r, 0, 30, 90)
	kidPct := sim.Pick(r, 0, 10, 40)
	nops := 3 + r.Intn(25)
	ncalls := 0
	mk := func() Op {
		o := Op{K: "call", A: int64(ncalls)}
		ncalls++
		o.B = int64(r.Intn(dmax+1)) * 1000
		switch r.Intn(8) {
		case 0:
			o.B = 0
		case 1:
			o.B = int64(r.Intn(3000))
		case 2:
			o.B = -int64(r.Intn(1000_000))
		case 3:
			o.B = int64(dmax) * 1000
		}
		if r.Pct(busyPct) {
			o.C = int64(r.Intn(bmax*1000 + 1))
		}
		if r.Pct(kidPct) {
			o.D = 1 + int64(r.Intn(3))
		}
		o.N = int64(r.U64() >> 16)
		return o
	}
	for i := 0; i < nops; i++ {
		a := r.Intn(na)
		var o Op
		switch x := r.Intn(100); {
		case x < 45:
			o = mk()
		case x < 60:
			o = Op{K: "cancel", A: int64(r.Intn(ncalls + 1)), B: int64(r.Intn(3))}
		case x < 75:
			o = Op{K: "sleep", B: int64(r.Intn(dmax*1500 + 1))}
		case x < 80:
			o = Op{K: "sleep", B: int64(25_000_000 + r.Intn(45_000_000))}
		case x < 85:
			o = Op{K: "nil", B: int64(r.Intn(1000))}
		case x < 90 && r.Pct(50):
			o = Op{K: "step", B: int64(r.Intn(7_200_000_000)) - 3_600_000_000}
		default:
			o = mk()
			o.K = "burst"
			o.S = fmt.Sprint(2 + r.Intn(14))
		}
		p.Actors[a] = append(p.Actors[a], o)
	}
	return p
}

func us(n int64) time.Duration { return time.Duration(n) * time.Microsecond }

// account adds the time since the last change of running
func (w *tmWorld) account() {
	now := effNow()
	if w.running < tmWorkers {
		w.debt += now - w.last
	}
	w.last = now
}

func (w *tmWorld) schedule(d, busy time.Duration, kids int64, r *sim.Rng) {
	k := &tmCall{n: len(w.calls), d: d, busy: busy}
	w.calls = append(w.calls, k)
	w.added++
	k.at = sim.Mono()
	kr := sim.NewRng(r.U64())
	k.fu = timeout.Call(func() { w.run(k, kids, kr) }, d)
	sim.Rel(unsafe.Pointer(k)) // the program hands the future over with synchronisation
	k.made = sim.Mono()
	sim.AddTimer(d, nil, func() {
		w.account()
		k.due, k.dueEff, k.debt0 = true, effNow(), w.debt
	})
}

func (w *tmWorld) run(k *tmCall, kids int64, r *sim.Rng) {
	now := sim.Mono()
	w.account()
	k.runs++
	if k.runs > 1 {
		w.c.Fail("twice", "the call %d is made %d times", k.n, k.runs)
	}
	k.start = now
	if k.d > 0 && now < k.at+k.d {
		w.c.Fail("early", "the call %d requested in %v is made in %v", k.n, k.d, now-k.at)
	}
	if k.cancelRet != 0 && k.cancelRet < k.at+k.d {
		w.c.Fail("cancelled", "the call %d is made although it was cancelled %v before it was due", k.n, k.at+k.d-k.cancelRet)
	}
	if k.due {
		// a worker that is held up between reading the clock and starting its timer may be late by that time
		if late := w.debt - k.debt0; late > tmLate+sim.Jumped() {
			w.c.Fail("late", "the call %d is made %v after it was due, for %v of that fewer than %d calls were running", k.n, effNow()-k.dueEff, late, tmWorkers)
		}
	}
	w.running++
	sim.Notef("run call %d (due at %v), %d running", k.n, k.at+k.d, w.running)
	if w.running > w.maxRun {
		w.maxRun = w.running
	}
	if k.busy > 0 {
		sim.Sleep(k.busy)
	} else if r.Pct(50) {
		sim.YS()
	}
	for i := int64(0); i < kids && w.added < 200; i++ {
		switch r.Intn(4) {
		case 0, 1:
			w.schedule(us(int64(r.Intn(5_000_000))), us(sim.Pick(r, int64(0), 0, 100, 10_000_000)), kids-1, r)
		case 2:
			w.cancel(r.Intn(len(w.calls)))
		default:
			k.fu = w.fut(k.n)
			if k.fu != nil {
				sim.Acq(unsafe.Pointer(k))
				k.fu.Cancel() // of itself
			}
		}
	}
	w.account()
	w.running--
	sim.Notef("end of call %d, %d running", k.n, w.running)
	k.end = sim.Mono()
}

func (w *tmWorld) fut(n int) timeout.Future { return w.calls[n].fu }

func (w *tmWorld) cancel(n int) {
	if n >= len(w.calls) {
		return
	}
	k := w.calls[n]
	if k.fu == nil {
		return // Call has not returned yet
	}
	k.cancelled = true
	sim.Acq(unsafe.Pointer(k))
	k.fu.Cancel()
	if k.cancelRet == 0 {
		k.cancelRet = sim.Mono()
	}
	w.c.Probe("cancel")
}

func runTimeout(c *Ctx) {
	w := &tmWorld{c: c}
	w.p = newProc(c, "proc", nil)
	for i, ops := range c.p.Actors {
		ops := ops
		w.p.spawn(fmt.Sprintf("actor%d", i), func() {
			for _, o := range ops {
				r := sim.NewRng(hashSeed("tm", c.p.Seed+uint64(o.N)))
				switch o.K {
				case "call":
					w.schedule(us(o.B), us(o.C), o.D, r)
				case "burst":
					n := 0
					fmt.Sscan(o.S, &n)
					for ; n > 0; n-- {
						w.schedule(us(o.B), us(o.C), 0, r)
					}
				case "cancel":
					for k := int64(0); k <= o.B/2; k++ {
						w.cancel(int(o.A))
					}
				case "sleep":
					sim.Sleep(us(o.B))
				case "step":
					w.p.node.StepClock(us(o.B))
				case "nil":
					f := timeout.Call(nil, us(o.B))
					if f == nil {
						c.Fail("nil", "Call returns nil for no function")
						continue
					}
					f.Cancel()
					f.Cancel()
					timeout.VoidFuture.Cancel()
				}
			}
		})
	}
	if !w.p.join(3 * time.Hour) {
		return
	}
	// everything is called in bounded time: each worker could have to make all the calls one by one
	limit := tmLate
	for _, k := range w.calls {
		limit += k.busy
		if k.d > 0 {
			limit += k.d
		}
	}
	pending := func() (n int) {
		for _, k := range w.calls {
			if k.runs == 0 && !k.cancelled || k.runs > 0 && k.end == 0 {
				n++
			}
		}
		return
	}
	begin := effNow()
	for n := -1; (pending() > 0 || n != w.added) && effNow()-begin < limit+60*time.Second*time.Duration(len(w.calls)); {
		// a cancelled call may be on its way and make other calls
		n = w.added
		sim.Sleep(5 * time.Second)
		w.p.panics()
		if len(c.viol) > 0 {
			return
		}
	}
	if pending() > 0 {
		sim.Sleep(limit)
	}
	for _, k := range w.calls {
		switch {
		case k.runs == 0 && !k.cancelled:
			c.Fail("lost", "the call %d requested in %v was never made", k.n, k.d)
		case k.runs == 0:
			c.Probe("cancelled")
		default:
			c.Probe("called")
			if k.cancelled {
				c.Probe("called-cancelled")
			}
		}
	}
	if w.maxRun >= tmWorkers {
		c.Probe("all-workers")
	}
	// idle workers go away
	sim.Sleep(2 * time.Minute)
	w.p.noTasks("all the calls were made", 0)
	// and the package is still usable
	n := len(w.calls)
	w.p.do("again", time.Minute, func() {
		w.schedule(time.Second, 0, 0, sim.NewRng(1))
		sim.Sleep(10 * time.Second)
	})
	if len(c.viol) == 0 && w.calls[n].runs != 1 {
		c.Fail("lost", "a call requested after all the workers were gone was made %d times", w.calls[n].runs)
	}
}

func init() {
	register("timeout", []string{"C17"}, &scenario{gen: genTimeout, run: runTimeout})
	scnInfo["timeout"] = scnDesc{
		real:   []string{"golibs/timeout"},
		stub:   []string{"goroutine scheduler, locks, channels, timers, clocks (simulated)"},
		assume: []string{"a call that gets due is late only by the time the scheduler takes, while fewer than 10 calls are in progress: 2 s of simulated time that was not skipped is the bound"},
	}
}
