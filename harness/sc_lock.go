package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/golibs/container/iterable"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	dist "github.com/solarisdb/solaris/golibs/kvs/distlock"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	kvredis "github.com/solarisdb/solaris/golibs/kvs/redis"
	gsync "github.com/solarisdb/solaris/golibs/sync"
	"github.com/solarisdb/solaris/zsim/sim"
	goredis "github.com/solarisdb/solaris/zthird/redis"
)

// ---------------------------------------------------------------- C16: distributed lock

const (
	lockLease  = 10 * time.Second
	lockPrompt = 4 * time.Second // two storage calls with the worst delay and one second
)

type lockHold struct {
	name    string
	cl      *lockClient
	task    string
	since   int64         // tick of the acquisition's return
	begin   time.Duration // monotonic time when the acquisition began
	jumped  time.Duration
	stalled time.Duration
}

type lockWait struct {
	cl      *lockClient
	name    string
	since   time.Duration
	stalled time.Duration
}

type lockClient struct {
	w       *lockWorld
	p       *proc
	n       int
	dlp     dist.LockProvider
	conn    io.Closer
	lockers map[string]gsync.Locker
	stalled time.Duration // for how long it was told to stall
	stallTo time.Duration // monotonic time when the last stall ends
	down    time.Duration // effective time when it was shut down, 0: not
}

type lockWorld struct {
	c       *Ctx
	store   *sim.Node
	kv      kvs.Storage
	cls     []*lockClient
	holds   []*lockHold
	waits   []*lockWait
	free    map[string]time.Duration // effective time since which nobody holds or fails to get the lock
	casErrs map[string]int
	rd      *redisd // the Redis server, if it keeps the locks
}

// kvProxy is the connection of a client with the store
type kvProxy struct {
	w  *lockWorld
	cl *lockClient
	kv kvs.Storage
}

var errKV = errors.New("the key-value store is not reachable")
var _ kvs.Storage = (*kvProxy)(nil)

func kvDelay() {
	if v := sim.Fault("kv.delay"); v != 0 {
		sim.Sleep(time.Duration(v*v*v) * time.Millisecond)
	} else {
		sim.Sleep(time.Duration(100+sim.S.Rng().Intn(900)) * time.Microsecond)
	}
}

// rpc executes f on the store
func (p *kvProxy) rpc(kind, key string, lossy bool, f func() error) error {
	sim.Count("kv:" + kind)
	kvDelay()
	if kind == "cas" {
		// a renewal may fail, but not so that the lease ends
		if p.w.casErrs[key] < 2 && sim.Fault("kv.cas") != 0 {
			p.w.casErrs[key]++
			return errKV
		}
		p.w.casErrs[key] = 0
	} else if sim.Fault("kv.err") != 0 {
		p.w.touch()
		return errKV
	}
	var err error
	if p.w.rd != nil {
		err = f()
	} else {
		done := make(chan error, 1)
		sim.GoNamed("kv-"+kind, p.w.store, func() { sim.SendNow(done, f()) })
		err = sim.Recv(done)
	}
	kvDelay()
	if lossy && sim.Fault("kv.lost") != 0 {
		p.w.touch()
		return errKV
	}
	return err
}

// onWire: the store gets a copy of the record without the monotonic clock reading of the client
func onWire(r kvs.Record) kvs.Record {
	r = r.Copy()
	if r.ExpiresAt != nil {
		t := r.ExpiresAt.Round(0)
		r.ExpiresAt = &t
	}
	return r
}

func (p *kvProxy) Create(ctx context.Context, record kvs.Record) (ver string, err error) {
	rec := onWire(record)
	var v string
	err = p.rpc("create", record.Key, true, func() (e error) { v, e = p.kv.Create(ctx, rec); return })
	if errors.Is(err, errKV) {
		return "", err
	}
	return v, err
}

func (p *kvProxy) Get(ctx context.Context, key string) (r kvs.Record, err error) {
	err = p.rpc("get", key, false, func() (e error) { r, e = p.kv.Get(ctx, key); return })
	return
}

func (p *kvProxy) GetMany(ctx context.Context, keys ...string) (r []*kvs.Record, err error) {
	err = p.rpc("getmany", "", false, func() (e error) { r, e = p.kv.GetMany(ctx, keys...); return })
	return
}

func (p *kvProxy) Put(ctx context.Context, record kvs.Record) (r kvs.Record, err error) {
	rec := onWire(record)
	err = p.rpc("put", record.Key, false, func() (e error) { r, e = p.kv.Put(ctx, rec); return })
	return
}

func (p *kvProxy) PutMany(ctx context.Context, records []kvs.Record) error {
	return p.rpc("putmany", "", false, func() error { return p.kv.PutMany(ctx, records) })
}

func (p *kvProxy) CasByVersion(ctx context.Context, record kvs.Record) (r kvs.Record, err error) {
	rec := onWire(record)
	err = p.rpc("cas", record.Key, false, func() (e error) { r, e = p.kv.CasByVersion(ctx, rec); return })
	if err != nil {
		r = kvs.Record{}
	}
	return
}

func (p *kvProxy) Delete(ctx context.Context, key string) error {
	return p.rpc("delete", key, true, func() error { return p.kv.Delete(ctx, key) })
}

func (p *kvProxy) WaitForVersionChange(ctx context.Context, key, ver string) error {
	return p.rpc("wait", key, false, func() error { return p.kv.WaitForVersionChange(ctx, key, ver) })
}

func (p *kvProxy) ListKeys(ctx context.Context, pattern string) (it iterable.Iterator[string], err error) {
	err = p.rpc("list", "", false, func() (e error) { it, e = p.kv.ListKeys(ctx, pattern); return })
	return
}

// touch: something has failed, a lock may be held by nobody until its lease ends
func (w *lockWorld) touch() {
	for k := range w.free {
		w.free[k] = effNow()
	}
}

func without[T comparable](s []T, x T) []T {
	var res []T
	for _, v := range s {
		if v != x {
			res = append(res, v)
		}
	}
	return res
}

func genLock(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "distlock", seed)
	p.MaxSteps = 1_500_000
	p.JumpPct = sim.Pick(r, 0, 0, 0, 0, 5)
	ncl := sim.Pick(r, 1, 2, 2, 3)
	p.P["clients"] = ncl
	p.P["names"] = sim.Pick(r, 1, 1, 2)
	p.P["redis"] = sim.Pick(r, 0, 0, 1)
	p.P["skew"] = sim.Pick(r, 0, 0, 300)
	mode := sim.Pick(r, "calm", "calm", "errors", "renew", "stalls", "crash", "shutdown", "mix")
	if sim.Pick(r, 0, 1) == 1 || mode == "mix" {
		p.Rates["kv.delay"] = sim.Pick(r, 500, 3000)
	}
	if mode == "errors" || mode == "mix" {
		p.Rates["kv.err"] = sim.Pick(r, 300, 2000)
		p.Rates["kv.lost"] = sim.Pick(r, 0, 1000)
	}
	if mode == "renew" || mode == "mix" {
		p.Rates["kv.cas"] = sim.Pick(r, 1000, 5000)
	}
	hold := sim.Pick(r, 1, 100, 12_000, 40_000) // ms
	maxTasks := 3
	if p.P["redis"] != 0 {
		// waiting is polling there
		hold, maxTasks, p.MaxSteps = min(hold, 12_000), 2, 4_000_000
	}
	p.P["own"] = sim.Pick(r, 0, 0, 50) // percent of the calls with a Locker of their own
	for i := 0; i < ncl; i++ {
		for k := 1 + r.Intn(maxTasks); k > 0; k-- {
			var ops []Op
			for n := 1 + r.Intn(6); n > 0; n-- {
				o := Op{A: int64(r.Intn(p.P["names"])), C: int64(r.Intn(hold*1000 + 1)), B: 0, N: int64(r.Intn(100))}
				switch x := r.Intn(100); {
				case x < 25 && (mode == "calm" || mode == "renew" || mode == "stalls"):
					o.K = "lock"
				case x < 65:
					o.K = "lockctx"
					if r.Pct(35) {
						o.B = sim.Pick(r, int64(1), 500, 20_000, 1_000_000, 8_000_000, 30_000_000)
					}
				case x < 85:
					o.K = "try"
				default:
					o.K = "sleep"
				}
				ops = append(ops, o)
			}
			p.Actors = append(p.Actors, ops)
			p.P[fmt.Sprintf("of%d", len(p.Actors)-1)] = i
		}
	}
	var ch []Op
	add := func(k string, d int) {
		ch = append(ch, Op{K: "sleep", C: int64(r.Intn(sim.Pick(r, 100, 20_000, 60_000) * 1000))})
		ch = append(ch, Op{K: k, A: int64(r.Intn(ncl)), C: int64(d)})
	}
	if mode == "stalls" || mode == "mix" {
		for k := 1 + r.Intn(3); k > 0; k-- {
			add("stall", r.Intn(sim.Pick(r, 5, 14, 40)*1000_000))
		}
	}
	if mode == "crash" || mode == "mix" && r.Pct(50) {
		add("crash", r.Intn(sim.Pick(r, 1, 100, 1500)))
	}
	if mode == "shutdown" || mode == "mix" && r.Pct(50) {
		add("shutdown", 0)
	}
	p.Actors = append(p.Actors, ch)
	p.P["chaos"] = len(p.Actors) - 1
	return p
}

func lockName(i int64) string { return fmt.Sprintf("lock%d", i) }

func (h *lockHold) lost() bool {
	return h.cl.p.node.Dead() || h.cl.stalled-h.stalled > 2*time.Second || sim.Jumped()-h.jumped > 2*time.Second
}

func (cl *lockClient) locker(o Op) gsync.Locker {
	name := lockName(o.A)
	if int(o.N) < cl.w.c.par("own") {
		return cl.dlp.NewLocker(name)
	}
	if cl.lockers[name] == nil {
		cl.lockers[name] = cl.dlp.NewLocker(name)
		sim.Rel(unsafe.Pointer(cl)) // the program shares the locker with synchronisation
	}
	sim.Acq(unsafe.Pointer(cl))
	return cl.lockers[name]
}

func (cl *lockClient) exec(task string, o Op) {
	w, c := cl.w, cl.w.c
	if o.K == "sleep" {
		sim.Sleep(us(o.C))
		return
	}
	l := cl.locker(o)
	name := lockName(o.A)
	h := &lockHold{name: name, cl: cl, task: task, begin: sim.Mono(), jumped: sim.Jumped(), stalled: cl.stalled}
	e0 := effNow()
	got := false
	switch o.K {
	case "lock":
		wt := &lockWait{cl: cl, name: name, since: e0, stalled: cl.stalled}
		w.waits = append(w.waits, wt)
		l.Lock()
		w.waits = without(w.waits, wt)
		got = true
	case "lockctx":
		ctx := newOpCtx(o.B)
		wt := &lockWait{cl: cl, name: name, since: e0, stalled: cl.stalled}
		w.waits = append(w.waits, wt)
		err := l.LockWithCtx(ctx)
		w.waits = without(w.waits, wt)
		got = err == nil
		e1 := effNow()
		fair := cl.stalled == h.stalled && sim.Jumped() == h.jumped
		if err != nil {
			c.Probe("lock-failed")
			switch {
			case errors.Is(err, errKV):
			case errors.Is(err, context.Canceled) && ctx.cancelled != 0:
			case errors.Is(err, gerrors.ErrClosed) && cl.down != 0:
			case errors.Is(err, context.Canceled) && cl.down != 0:
			default:
				c.Fail("error", "LockWithCtx of %s fails: %v", name, err)
			}
		}
		if fair && ctx.cancelled != 0 && e1-max(e0, ctx.cancelled) > lockPrompt {
			c.Fail("cancel", "LockWithCtx returns %v after its context was cancelled", e1-max(e0, ctx.cancelled))
		}
		if fair && cl.down != 0 && e1-max(e0, cl.down) > lockPrompt {
			c.Fail("shutdown", "LockWithCtx returns %v after the provider was shut down (error %v)", e1-max(e0, cl.down), err)
		}
		if got && cl.down != 0 && e0 > cl.down {
			c.Fail("shutdown", "a lock is acquired by a provider that was shut down before")
		}
		defer ctx.cancel()
	case "try":
		ctx := newOpCtx(0)
		got = l.TryLock(ctx)
		e1 := effNow()
		if cl.stalled == h.stalled && sim.Jumped() == h.jumped && e1-e0 > lockPrompt {
			c.Fail("try", "TryLock takes %v", e1-e0)
		}
		defer ctx.cancel()
	}
	if !got {
		w.touchOne(name)
		return
	}
	h.since = sim.Tick()
	c.Probe("acquired")
	for _, x := range w.holds {
		if x.name == name && !x.lost() && !h.lost() {
			c.Fail("exclusion", "%s acquires %s of client %d (in %v) while %s of client %d holds it since %v ago", task, name, cl.n, sim.Mono()-h.begin, x.task, x.cl.n, sim.Mono()-x.begin)
		}
	}
	w.holds = append(w.holds, h)
	w.touchOne(name)
	sim.Notef("%s acquires %s", task, name)
	if o.C > 0 {
		sim.Sleep(us(o.C))
	}
	if us(o.C) > lockLease {
		c.Probe("held-long")
	}
	if h.lost() {
		c.Probe("lost")
	}
	w.holds = without(w.holds, h)
	w.touchOne(name)
	sim.Notef("%s releases %s", task, name)
	l.Unlock()
	w.touchOne(name)
}

func (w *lockWorld) touchOne(name string) { w.free[name] = effNow() }

// watch: waiters get a lock that is free
func (w *lockWorld) watch() {
	for _, wt := range w.waits {
		if wt.cl.p.node.Dead() || wt.cl.stallTo+2*lockLease > sim.Mono() {
			continue
		}
		held := false
		for _, h := range w.holds {
			held = held || h.name == wt.name && !h.cl.p.node.Dead()
		}
		if held {
			continue
		}
		if d := effNow() - max(wt.since, w.free[wt.name]); d > 3*lockLease {
			w.c.Fail("stuck", "a task of client %d waits for %s, which nobody holds for %v", wt.cl.n, wt.name, d)
			w.waits = without(w.waits, wt)
		}
	}
}

func runLock(c *Ctx) {
	w := &lockWorld{c: c, free: map[string]time.Duration{}, casErrs: map[string]int{}}
	w.store = sim.NewNode("store", nil)
	st := make(chan struct{}, 1)
	sim.GoNamed("new", w.store, func() { w.kv = inmem.New(); sim.SendNow(st, struct{}{}) })
	sim.Recv(st)
	if c.par("redis") != 0 {
		w.rd = newRedisd()
	}
	r := sim.NewRng(hashSeed("lock", c.p.Seed))
	var total time.Duration
	nops := 0
	for i := 0; i < c.par("clients"); i++ {
		cl := &lockClient{w: w, n: i, lockers: map[string]gsync.Locker{}}
		cl.p = newProc(c, fmt.Sprintf("client%d", i), nil)
		cl.p.node.OnCrash(w.touch)
		if s := c.par("skew"); s > 0 {
			cl.p.node.StepClock(time.Duration(r.Intn(2*s)-s) * time.Millisecond)
		}
		kv := w.kv
		cl.p.do("new", time.Minute, func() {
			if w.rd != nil {
				kv = kvredis.New(&goredis.Options{Addr: "redis:6379", Dialer: w.rd.dial, PoolSize: 10, MaxRetries: -1})
				cl.conn = kv.(io.Closer)
			}
			cl.dlp = dist.NewKvsLockProvider(&kvProxy{w: w, cl: cl, kv: kv}, "locks/")
		})
		w.cls = append(w.cls, cl)
	}
	chaos := c.par("chaos")
	for i, ops := range c.p.Actors {
		if i == chaos {
			continue
		}
		cl := w.cls[c.par(fmt.Sprintf("of%d", i))]
		name := fmt.Sprintf("task%d", i)
		for _, o := range ops {
			total += us(o.C)
			nops++
		}
		ops := ops
		cl.p.spawn(name, func() {
			for _, o := range ops {
				cl.exec(name, o)
			}
		})
	}
	stop := every(time.Second, w.watch)
	for _, o := range c.p.Actors[chaos] {
		cl := w.cls[int(o.A)%len(w.cls)]
		switch o.K {
		case "sleep":
			sim.Sleep(us(o.C))
			continue
		}
		if cl.p.node.Dead() {
			continue
		}
		switch o.K {
		case "stall":
			total += us(o.C)
			cl.stalled += us(o.C)
			if t := sim.Mono() + us(o.C); t > cl.stallTo {
				cl.stallTo = t
			}
			cl.p.node.Stall(us(o.C))
		case "crash":
			cl.p.node.ArmCrash(o.C)
		case "shutdown":
			if cl.down == 0 {
				done := make(chan struct{}, 1)
				sim.GoNamed("shutdown", cl.p.node, func() { cl.dlp.Shutdown(); cl.down = effNow(); sim.SendNow(done, struct{}{}) })
				for t := time.Duration(0); !cl.p.node.Dead() && sim.Len((<-chan struct{})(done)) == 0; t += 10 * time.Millisecond {
					if t > 2*time.Minute+total {
						c.Fail("shutdown", "Shutdown does not return. Tasks of the client: %v", sim.Blocked(cl.p.node))
						break
					}
					sim.Sleep(10 * time.Millisecond)
				}
			}
		}
	}
	for _, cl := range w.cls {
		if !cl.p.join(total+time.Duration(nops+1)*4*lockLease+time.Minute) && !cl.p.node.Dead() {
			return
		}
	}
	c.faults = false
	stop()
	// the locks that nobody holds disappear
	sim.Sleep(3 * lockLease)
	for i := 0; i < c.par("names"); i++ {
		done := make(chan error, 1)
		key := "locks/" + lockName(int64(i))
		if w.rd != nil {
			if _, ok := w.rd.get("/kvs/" + key); ok {
				c.Fail("released", "the lock %s is released by all its owners, but its record is still there", key)
			}
			continue
		}
		sim.GoNamed("get", w.store, func() { _, err := w.kv.Get(context.Background(), key); sim.SendNow(done, err) })
		if err := sim.Recv(done); !errors.Is(err, gerrors.ErrNotExist) {
			c.Fail("released", "the lock %s is released by all its owners, but its record is still there (%v)", key, err)
		}
	}
	sim.Sleep(2 * time.Minute)
	for _, cl := range w.cls {
		if !cl.p.node.Dead() {
			if cl.conn != nil {
				cl.p.do("close", time.Minute, func() { cl.conn.Close() })
			}
			cl.p.noTasks("all the locks are released", 0)
		}
	}
	for _, pi := range w.store.Panics {
		c.Fail("panic", "panic in the store: %s\n%s", pi.Value, pi.Stack)
	}
}

func init() {
	register("distlock", []string{"C16"}, &scenario{gen: genLock, run: runLock})
	scnInfo["distlock"] = scnDesc{
		real: []string{"golibs/kvs/distlock", "golibs/timeout", "golibs/kvs/inmem or golibs/kvs/redis (with the go-redis client) as the store"},
		stub: []string{"Redis server (in the runs that use it)", "network between the lock providers and the store (delays, failed calls, lost answers of Create and Delete)", "goroutine scheduler, locks, channels, contexts, timers, clocks (simulated)"},
		assume: []string{"the clocks of the clients and of the store differ by less than 0.3 s",
			"a failed renewal has no effect in the store, and not more than two renewals in a row fail",
			"an owner that is not run for longer than 2 s is not protected (its lease may end), but it must not harm the others"},
	}
}
