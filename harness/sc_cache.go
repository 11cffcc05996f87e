package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- C13: ReleasableCache

type rcObj struct {
	id, key  int
	alive    bool
	deleted  bool
	use      int   // how many clients hold it
	relStart int64 // when the latest release began
	relEnd   int64 // when the latest release ended
	delTick  int64
	rels     int // releases in progress
}

type rcGet struct {
	key      int
	t0       int64
	eff0     time.Duration
	creatEff time.Duration // when its key was last seen being created
	ctx      *opCtx
	inCb     bool
	closed   bool
	cbEnd    time.Duration // the end of its own creation
}

type rcWorld struct {
	c        *Ctx
	cache    *lru.ReleasableCache[int, *rcObj]
	objs     []*rcObj
	creating map[int]int // key -> creations in progress
	ncreat   int
	gets     map[*rcGet]bool
	holders  int // objects with use > 0
	max      int
	nerr     int
	closeT0  int64
	closeEff time.Duration
	closeT1  int64
	lastFull time.Duration // the last moment when there was no room for another object
	curGet   map[*sim.Task]*rcGet
	nodel    bool
}

func genCache(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "rcache", seed)
	p.MaxSteps = 400_000
	p.P["max"] = 1 + r.Intn(4)
	p.P["keys"] = 1 + r.Intn(6)
	p.P["failPct"] = sim.Pick(r, 0, 0, 10, 40)
	p.P["slow"] = sim.Pick(r, 0, 0, 1, 20)
	if r.Pct(15) {
		p.P["slow"] = 6000 // longer than any answer may take that does not depend on it
	}
	p.P["nested"] = sim.Pick(r, 0, 0, 1)
	p.P["nodel"] = sim.Pick(r, 0, 0, 0, 0, 1)
	na := 1 + r.Intn(6)
	cancelPct := sim.Pick(r, 0, 10, 30)
	n := int64(0)
	for a := 0; a < na; a++ {
		var ops []Op
		for k := 2 + r.Intn(14); k > 0; k-- {
			n++
			o := Op{K: "use", A: int64(r.Intn(p.P["keys"])), N: n}
			if r.Pct(cancelPct) {
				o.B = sim.Pick(r, int64(1), 2, 10, 100, 1000, 20000)
			}
			o.C = int64(r.Intn(8)) // yields while it is held
			if r.Pct(30) {
				o.D = int64(1 + r.Intn(30)) // ms it is held
			}
			if p.P["nested"] == 1 && r.Pct(40) {
				o.S = "n" // take another one meanwhile
			}
			ops = append(ops, o)
			if r.Pct(8) {
				ops = append(ops, Op{K: "sleep", A: int64(1 + r.Intn(50))})
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	if r.Pct(40) {
		a := r.Intn(na)
		k := r.Intn(len(p.Actors[a]) + 1)
		p.Actors[a] = append(p.Actors[a][:k:k], append([]Op{{K: "close"}}, p.Actors[a][k:]...)...)
	}
	return p
}

func (w *rcWorld) alive() int {
	n := 0
	for _, o := range w.objs {
		if o.alive && (!w.nodel || o.use > 0) {
			n++
		}
	}
	return n
}

func (w *rcWorld) full() bool { return w.holders+w.ncreat >= w.max }

func (w *rcWorld) touch() {
	if w.full() {
		w.lastFull = effNow()
	}
}

func (w *rcWorld) create(ctx context.Context, key int) (*rcObj, error) {
	g := w.curGet[sim.Cur()]
	if g == nil || g.key != key {
		w.c.Fail("wrong-key", "an object is created for the key %d which the caller has not asked for", key)
		return nil, fmt.Errorf("wrong")
	}
	if w.closeT1 != 0 && w.closeT1 < g.t0 {
		w.c.Fail("closed", "an object is created although the cache was closed before the request")
	}
	if w.creating[key] > 0 {
		w.c.Fail("twice", "two objects are being created for the key %d at a time", key)
	}
	for _, o := range w.objs {
		if o.alive && o.key == key && (!w.nodel || o.use > 0) {
			w.c.Fail("twice", "an object is created for the key %d which has one already (held %d times)", key, o.use)
		}
	}
	w.creating[key]++
	w.ncreat++
	g.inCb = true
	if n := w.alive() + w.ncreat; n > w.max {
		w.c.Fail("limit", "the cache has %d objects (with %d being created), the limit is %d", n, w.ncreat, w.max)
	}
	w.touch()
	r := w.c.rng
	yields(r.Intn(6), 0)
	if s := w.c.par("slow"); s > 0 && r.Pct(60) {
		sim.Sleep(time.Duration(1+r.Intn(s*1000)) * time.Microsecond)
	}
	w.touch()
	w.creating[key]--
	w.ncreat--
	g.inCb = false
	g.cbEnd = effNow()
	if r.Pct(w.c.par("failPct")) {
		w.nerr++
		w.c.Probe("create-failed")
		g.closed = false
		return nil, &rcErr{g, w.nerr}
	}
	if err := ctx.Err(); err != nil && r.Pct(70) {
		w.c.Probe("create-cancelled")
		return nil, err
	}
	o := &rcObj{id: len(w.objs), key: key, alive: true}
	w.objs = append(w.objs, o)
	w.c.Probe("created")
	return o, nil
}

type rcErr struct {
	g *rcGet
	n int
}

func (e *rcErr) Error() string { return fmt.Sprintf("injected error %d", e.n) }

func (w *rcWorld) del(key int, o *rcObj) {
	sim.YS()
	sim.Notef("delete key %d", key)
	if o == nil {
		w.c.Fail("delete-nil", "something that was never created is deleted for the key %d", key)
		return
	}
	if o.key != key {
		w.c.Fail("wrong-key", "the object of the key %d is deleted with the key %d", o.key, key)
	}
	if o.deleted {
		w.c.Fail("delete-twice", "the object %d of the key %d is deleted twice", o.id, key)
		return
	}
	if o.use > 0 {
		w.c.Fail("delete-used", "the object %d of the key %d is deleted while %d clients use it", o.id, key, o.use)
	}
	o.deleted, o.alive, o.delTick = true, false, sim.Tick()
	if w.closeT0 != 0 {
		return
	}
	// the least recently released objects go first, and only if the room is needed
	pend := 0
	busy := map[int]bool{}
	for g := range w.gets {
		busy[g.key] = true
		if !g.inCb {
			pend++
		}
	}
	if 1+w.alive()+w.ncreat+pend < w.max {
		w.c.Fail("needless", "an object is dropped although only %d of %d places are taken", 1+w.alive()+w.ncreat, w.max)
	}
	for _, y := range w.objs {
		if y.alive && y.use == 0 && y.rels == 0 && !busy[y.key] && y.relEnd != 0 && o.relStart != 0 && y.relEnd < o.relStart {
			w.c.Fail("lru", "the object %d (released at %d) is dropped before the object %d, which is unused since %d", o.id, o.relStart, y.id, y.relEnd)
		}
	}
}

func (w *rcWorld) get(ctx *opCtx, key int) *lru.Releasable[*rcObj] {
	g := &rcGet{key: key, t0: sim.Tick(), eff0: effNow(), ctx: ctx}
	w.gets[g] = true
	w.curGet[sim.Cur()] = g
	rl, err := w.cache.GetOrCreate(ctx, key)
	var o *rcObj
	if err == nil {
		o = rl.Value()
	}
	delete(w.gets, g)
	delete(w.curGet, sim.Cur())
	now := effNow()
	since := max(g.eff0, g.cbEnd)
	if ctx.cancelled > since {
		since = ctx.cancelled
	}
	if ctx.cancelled != 0 && now-since > 2*time.Second {
		w.c.Fail("slow-cancel", "a request returned %v after its context was cancelled", now-since)
	}
	if err != nil {
		var re *rcErr
		switch {
		case errors.As(err, &re):
			if re.g != g {
				w.c.Fail("error", "a request returns the creation error of another request")
			}
		case errors.Is(err, gerrors.ErrClosed):
			if w.closeT0 == 0 {
				w.c.Fail("error", "a request reports that the cache is closed, but it is not")
			}
			w.c.Probe("get-closed")
		case errors.Is(err, context.Canceled):
			if ctx.cancelled == 0 {
				w.c.Fail("error", "a request returns %v, but its context is not cancelled", err)
			}
			w.c.Probe("get-cancelled")
		default:
			w.c.Fail("error", "unexpected error: %v", err)
		}
		return nil
	}
	if o == nil || o.key != key {
		w.c.Fail("wrong-key", "the request for the key %d returns the object %+v", key, o)
		return nil
	}
	if o.deleted {
		w.c.Fail("deleted", "the request for the key %d returns the object %d which is deleted", key, o.id)
	}
	if w.closeT1 != 0 && w.closeT1 < g.t0 {
		w.c.Fail("closed", "a request succeeded although the cache was closed before it")
	}
	sim.Notef("get key %d -> %d", key, o.id)
	o.use++
	if o.use == 1 {
		w.holders++
	} else {
		w.c.Probe("shared")
	}
	w.touch()
	return &rl
}

func (w *rcWorld) release(rl *lru.Releasable[*rcObj]) {
	o := rl.Value()
	if o.deleted {
		w.c.Fail("delete-used", "the object %d of the key %d was deleted while it was used", o.id, o.key)
	}
	w.touch()
	o.use--
	if o.use == 0 {
		w.holders--
	}
	if t := sim.Tick(); t > o.relStart {
		o.relStart = t
	}
	sim.Notef("release %d", o.id)
	o.rels++
	w.cache.Release(rl)
	o.rels--
	o.relEnd = sim.Tick()
}

func (w *rcWorld) doClose() {
	first := w.closeT0 == 0
	if first {
		w.closeT0, w.closeEff = sim.Tick(), effNow()
	}
	err := w.cache.Close()
	if first {
		w.closeT1 = sim.Tick()
		if err != nil {
			w.c.Fail("close", "the first Close fails: %v", err)
		}
	} else if err == nil {
		w.c.Fail("close", "Close succeeds twice")
	}
}

func (w *rcWorld) actor(ops []Op) {
	for _, o := range ops {
		switch o.K {
		case "sleep":
			sim.Sleep(time.Duration(o.A) * time.Millisecond)
		case "close":
			w.doClose()
		case "use":
			ctx := newOpCtx(o.B)
			rl := w.get(ctx, int(o.A))
			if rl == nil {
				ctx.cancel()
				continue
			}
			yields(int(o.C), time.Duration(o.D)*time.Millisecond)
			if o.S == "n" {
				r := sim.NewRng(hashSeed("nest", w.c.p.Seed+uint64(o.N)))
				// a second object may never be available while the others hold theirs
				ctx2 := newOpCtx(int64(2 + r.Intn(5000)))
				if r2 := w.get(ctx2, r.Intn(w.c.par("keys"))); r2 != nil {
					yields(r.Intn(5), 0)
					if r.Pct(50) {
						rl, r2 = r2, rl
					}
					w.release(r2)
				}
				ctx2.cancel()
			}
			w.release(rl)
			ctx.cancel()
		}
	}
}

func runCache(c *Ctx) {
	w := &rcWorld{c: c, creating: map[int]int{}, gets: map[*rcGet]bool{}, curGet: map[*sim.Task]*rcGet{}, max: c.par("max")}
	p := newProc(c, "proc", nil)
	p.do("new", time.Minute, func() {
		var err error
		del := w.del
		if c.par("nodel") == 1 {
			del = nil
		}
		w.cache, err = lru.NewReleasableCache[int, *rcObj](w.max, w.create, del)
		if err != nil {
			c.Fail("new", "the cache is not created: %v", err)
		}
	})
	if w.cache == nil {
		return
	}
	if c.par("nodel") == 1 {
		w.nodel = true // nobody tells which objects are dropped
	}
	stop := every(250*time.Millisecond, func() {
		now := effNow()
		if w.full() {
			w.lastFull = now
			return
		}
		for g := range w.gets {
			if w.creating[g.key] > 0 {
				g.creatEff = now
			}
			since := max(g.eff0, w.lastFull, g.creatEff, g.cbEnd)
			if !g.inCb && now-since > 2*time.Second && w.closeT0 == 0 {
				c.Fail("stuck", "a request for the key %d waits for %v although only %d objects are in use and %d are being created (limit %d)", g.key, now-g.eff0, w.holders, w.ncreat, w.max)
			}
			if w.closeT1 != 0 && !g.inCb && now-max(g.eff0, w.closeEff, g.cbEnd) > 2*time.Second {
				c.Fail("stuck", "a request still waits %v after the cache was closed", now-w.closeEff)
			}
		}
	})
	for i, ops := range c.p.Actors {
		ops := ops
		p.spawn(fmt.Sprintf("actor%d", i), func() { w.actor(ops) })
	}
	if !p.join(10 * time.Minute) {
		stop()
		return
	}
	stop()
	p.do("end", time.Minute, func() {
		if w.closeT0 == 0 {
			w.doClose()
		}
		w.doClose()
		ctx := newOpCtx(0)
		if rl := w.get(ctx, 0); rl != nil {
			c.Fail("closed", "a closed cache returns objects")
		}
		ctx.cancel()
	})
	if c.par("nodel") == 0 {
		for _, o := range w.objs {
			if !o.deleted {
				c.Fail("leak", "the object %d of the key %d was created, released, the cache is closed, but it was never deleted", o.id, o.key)
			}
		}
	}
	p.noTasks("all the requests are answered", 0)
}

func init() {
	register("rcache", []string{"C13"}, &scenario{gen: genCache, run: runCache})
	scnInfo["rcache"] = scnDesc{
		real:   []string{"golibs/container/lru.ReleasableCache", "golibs/container/iterable", "golibs/chans"},
		stub:   []string{"creation and deletion callbacks (written by the harness: slow, failing, cancelled)", "goroutine scheduler, locks, channels, contexts, clocks and timers (simulated)"},
		assume: []string{"callbacks end in bounded time and do not call the cache"},
	}
}
