package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- C14: Cache, ECache, ExpirableCache

type lval struct {
	id, key  int
	ls, le   int64 // the load's begin and end
	added    int64 // when the request that loaded it returned
	del      int64 // when it was dropped
	dropped  bool  // a removal overlapped its load, so it may never have been kept
	lastUse0 int64 // the begin of the latest request that returned it
	exp      time.Duration
	expAt    time.Time
}

func (v *lval) GetValue() any           { return v.id }
func (v *lval) GetExpiresAt() time.Time { return v.expAt }

type lrem struct {
	key    int // -1: all
	t0, t1 int64
}

type lget struct {
	key int
	t0  int64
	now time.Duration
}

type lerr struct{ g *lget }

func (e *lerr) Error() string { return "injected load error" }

type lkey struct {
	s string // not used for the comparison
	k int
	f func() // makes the type not comparable
}

type lruWorld struct {
	c       *Ctx
	kind    string
	get     func(k int) (*lval, error)
	remove  func(k int) bool
	clear   func() int
	max     int
	vals    []*lval
	loading map[int]*lget
	cur     map[*sim.Task]*lget
	rems    []*lrem
	active  int // operations in progress
	single  bool
	model   []int // keys, least recently used first (single actor)
	expect  []int // deletions the model expects
	loads   int
	lastEnd map[int]int64 // when the latest request of a key ended
}

func genLRU(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "lru", seed)
	p.MaxSteps = 400_000
	p.P["kind"] = r.Intn(3)
	p.P["max"] = 1 + r.Intn(4)
	p.P["keys"] = 1 + r.Intn(6)
	p.P["failPct"] = sim.Pick(r, 0, 0, 10, 40)
	p.P["slow"] = sim.Pick(r, 0, 0, 1, 20)
	p.P["ttl"] = sim.Pick(r, 1, 5, 20, 200)
	p.P["nodel"] = sim.Pick(r, 0, 0, 0, 0, 1)
	na := sim.Pick(r, 1, 2, 3, 4, 6)
	n := int64(0)
	rem := sim.Pick(r, 0, 10, 30, 50)
	for a := 0; a < na; a++ {
		var ops []Op
		for k := 2 + r.Intn(16); k > 0; k-- {
			n++
			switch {
			case r.Pct(rem):
				if r.Pct(25) {
					ops = append(ops, Op{K: "clear", N: n})
				} else {
					ops = append(ops, Op{K: "rem", A: int64(r.Intn(p.P["keys"])), N: n})
				}
			case r.Pct(10):
				ops = append(ops, Op{K: "sleep", A: int64(r.Intn(30000)), N: n})
			case r.Pct(3):
				ops = append(ops, Op{K: "clock", A: int64(r.Intn(4000) - 2000), N: n})
			default:
				ops = append(ops, Op{K: "get", A: int64(r.Intn(p.P["keys"])), N: n})
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

func (w *lruWorld) load(key int) (*lval, error) {
	g := w.cur[sim.Cur()]
	if g == nil || g.key != key {
		w.c.Fail("wrong-key", "a value is loaded for the key %d which the caller has not asked for", key)
		return nil, errors.New("wrong")
	}
	t := sim.Tick()
	if w.loading[key] != nil {
		w.c.Fail("twice", "two loads of the key %d run at a time", key)
	}
	w.loads++
	w.loading[key] = g
	for _, v := range w.vals {
		if v.key == key && !v.dropped && v.del == 0 && v.added != 0 && v.added < g.t0 && !(w.kind == "exp" && v.exp < sim.Mono()) && w.c.par("nodel") == 0 {
			w.c.Fail("needless", "the key %d is loaded although its value %d is in the cache", key, v.id)
		}
	}
	r := w.c.rng
	yields(r.Intn(6), 0)
	if s := w.c.par("slow"); s > 0 && r.Pct(60) {
		sim.Sleep(time.Duration(1+r.Intn(s*1000)) * time.Microsecond)
	}
	if w.loading[key] == g {
		delete(w.loading, key)
	}
	if r.Pct(w.c.par("failPct")) {
		w.c.Probe("load-failed")
		return nil, &lerr{g}
	}
	v := &lval{id: len(w.vals), key: key, ls: t, le: sim.Tick()}
	d := time.Duration(r.Intn(w.c.par("ttl")*1000)) * time.Microsecond
	v.exp, v.expAt = sim.Mono()+d, sim.Now().Add(d)
	for _, x := range w.rems {
		if (x.key == key || x.key < 0) && (x.t1 == 0 || x.t1 > g.t0) {
			v.dropped = true
		}
	}
	if w.kind == "exp" {
		// another request may have found an expired value and be removing it
		for _, x := range w.cur {
			if x != g && x.key == key {
				v.dropped = true
			}
		}
		if w.lastEnd[key] > g.t0 {
			v.dropped = true
		}
	}
	w.vals = append(w.vals, v)
	sim.Notef("loaded %d of key %d", v.id, key)
	w.c.Probe("loaded")
	return v, nil
}

func (w *lruWorld) onDelete(key int, v *lval) {
	sim.YS()
	if v == nil {
		w.c.Fail("delete-nil", "no value is passed to the deletion of the key %d", key)
		return
	}
	if v.key != key {
		w.c.Fail("wrong-key", "the value of the key %d is deleted with the key %d", v.key, key)
	}
	if v.del != 0 {
		w.c.Fail("delete-twice", "the value %d of the key %d is deleted twice", v.id, key)
		return
	}
	v.del = sim.Tick()
	sim.Notef("delete %d of key %d", v.id, key)
	if w.single {
		if len(w.expect) > 0 && w.expect[0] == key {
			w.expect = w.expect[1:]
		} else {
			w.c.Fail("lru", "the key %d is dropped, the model expects %v", key, w.expect)
		}
	}
}

func (w *lruWorld) doGet(key int) {
	g := &lget{key: key, t0: sim.Tick(), now: sim.Mono()}
	w.cur[sim.Cur()] = g
	w.active++
	loads := w.loads
	hit := false
	if w.kind == "exp" {
		for _, v := range w.vals {
			if v.key == key && v.added == 0 {
				v.dropped = true
			}
		}
	}
	if w.single && w.kind != "exp" {
		for i, k := range w.model {
			if k == key {
				w.model = append(append(w.model[:i:i], w.model[i+1:]...), key)
				hit = true
				break
			}
		}
		if !hit && len(w.model) == w.max {
			w.expect = []int{w.model[0]}
		}
	}
	v, err := w.get(key)
	w.active--
	delete(w.cur, sim.Cur())
	w.lastEnd[key] = sim.Tick()
	if w.single && w.kind != "exp" {
		if hit && w.loads != loads {
			w.c.Fail("needless", "the key %d is loaded although it is in the cache", key)
		}
		if !hit && w.loads != loads+1 {
			w.c.Fail("model", "the key %d is not loaded although it is not in the cache", key)
		}
		if err != nil {
			w.expect = nil
		} else if !hit {
			if len(w.expect) > 0 && w.c.par("nodel") == 0 {
				w.c.Fail("model", "the key %d was added to the full cache, but nothing was dropped", key)
			}
			w.expect = nil
			if len(w.model) == w.max {
				w.model = w.model[1:]
			}
			w.model = append(w.model, key)
		}
	}
	if err != nil {
		var le *lerr
		if !errors.As(err, &le) {
			w.c.Fail("error", "unexpected error %v", err)
		} else if le.g != g {
			w.c.Fail("error", "a request returns the load error of another request")
		}
		return
	}
	if v == nil || v.key != key {
		w.c.Fail("wrong-key", "the request for the key %d returns %+v", key, v)
		return
	}
	if v.ls < g.t0 {
		w.c.Probe("hit")
	}
	if v.del != 0 && v.del < g.t0 {
		w.c.Fail("removed", "the request for the key %d returns the value %d, which was dropped before the request began", key, v.id)
	}
	for _, x := range w.rems {
		if (x.key == key || x.key < 0) && x.t1 != 0 && x.t1 < g.t0 && v.ls < x.t0 {
			w.c.Fail("removed", "the request for the key %d returns a value loaded before a removal that ended before the request began", key)
			break
		}
	}
	if w.kind == "exp" {
		if v.exp < g.now && v.ls < g.t0 {
			w.c.Fail("expired", "the request for the key %d returns a value that had expired %v before the request began", key, g.now-v.exp)
		}
		if v.exp < g.now {
			w.c.Probe("expired-fresh")
		}
	}
	if v.added == 0 {
		v.added = sim.Tick()
		sim.Notef("added %d of key %d", v.id, key)
	}
	kept := 0
	for _, x := range w.vals {
		if x.added != 0 && x.del == 0 && !x.dropped {
			kept++
		}
	}
	if kept > w.max && w.c.par("nodel") == 0 {
		w.c.Fail("limit", "the cache keeps %d values, the limit is %d", kept, w.max)
	}
}

func (w *lruWorld) doRemove(key int) {
	x := &lrem{key: key, t0: sim.Tick()}
	w.rems = append(w.rems, x)
	sim.Notef("remove %d", key)
	for _, v := range w.vals {
		// the load has ended, but the value may not be kept yet
		if (v.key == key || key < 0) && v.added == 0 {
			v.dropped = true
		}
	}
	w.active++
	had := map[*lval]bool{}
	for _, v := range w.vals {
		if v.del == 0 && v.added != 0 && !v.dropped && (v.key == key || key < 0) {
			had[v] = true
		}
	}
	if w.single && w.kind != "exp" {
		w.expect = nil
		if key < 0 {
			w.expect = append(w.expect, w.model...)
			w.model = nil
		} else {
			for i, k := range w.model {
				if k == key {
					w.expect = []int{key}
					w.model = append(w.model[:i:i], w.model[i+1:]...)
					break
				}
			}
		}
	} else if w.single {
		w.expect = nil
	}
	n, exp := 0, len(w.expect)
	if key < 0 {
		n = w.clear()
	} else if w.remove(key) {
		n = 1
	}
	w.active--
	x.t1 = sim.Tick()
	for v := range had {
		if v.del == 0 && w.c.par("nodel") == 0 {
			w.c.Fail("kept", "the value %d of the key %d is still kept after its removal", v.id, v.key)
		}
	}
	if w.single && w.kind != "exp" {
		if n != exp {
			w.c.Fail("model", "a removal (key %d) reports %d values, the model has %d", key, n, exp)
		}
		if len(w.expect) != 0 && w.c.par("nodel") == 0 {
			w.c.Fail("model", "a removal (key %d) did not drop %v", key, w.expect)
		}
		w.expect = nil
	}
	if key < 0 && n > w.max {
		w.c.Fail("limit", "the cache had %d values, the limit is %d", n, w.max)
	}
}

func runLRU(c *Ctx) {
	w := &lruWorld{c: c, kind: []string{"cache", "ecache", "exp"}[c.par("kind")], max: c.par("max"), loading: map[int]*lget{}, cur: map[*sim.Task]*lget{}, lastEnd: map[int]int64{}}
	w.single = len(c.p.Actors) == 1 && w.kind != "exp"
	p := newProc(c, "proc", nil)
	p.do("new", time.Minute, func() {
		var err error
		del := w.onDelete
		if c.par("nodel") == 1 {
			del = nil
		}
		switch w.kind {
		case "cache":
			var x *lru.Cache[int, *lval]
			x, err = lru.NewCache[int, *lval](w.max, w.load, del)
			if err == nil {
				w.get, w.remove, w.clear = x.GetOrCreate, x.Remove, x.Clear
			}
		case "ecache":
			var x *lru.ECache[lkey, int, *lval]
			var d2 lru.OnDeleteElemF[lkey, *lval]
			if del != nil {
				d2 = func(k lkey, v *lval) { del(k.k, v) }
			}
			x, err = lru.NewECache[lkey, int, *lval](w.max, func(k lkey) int { return k.k }, func(k lkey) (*lval, error) { return w.load(k.k) }, d2)
			mk := func(k int) lkey { return lkey{s: fmt.Sprint(w.loads), k: k} }
			if err == nil {
				w.get = func(k int) (*lval, error) { return x.GetOrCreate(mk(k)) }
				w.remove = func(k int) bool { return x.Remove(mk(k)) }
				w.clear = x.Clear
			}
		case "exp":
			var x *lru.ExpirableCache[int, *lval]
			x, err = lru.NewExpirableCache[int, *lval](w.max, w.load, del)
			if err == nil {
				w.get, w.remove, w.clear = x.GetOrCreate, x.Remove, x.Clear
			}
		}
		if err != nil {
			c.Fail("new", "the cache is not created: %v", err)
		}
	})
	if w.get == nil {
		return
	}
	for i, ops := range c.p.Actors {
		ops := ops
		p.spawn(fmt.Sprintf("actor%d", i), func() {
			for _, o := range ops {
				switch o.K {
				case "get":
					w.doGet(int(o.A))
				case "rem":
					w.doRemove(int(o.A))
				case "clear":
					w.doRemove(-1)
				case "sleep":
					sim.Sleep(time.Duration(o.A) * time.Microsecond)
				case "clock":
					p.node.StepClock(time.Duration(o.A) * time.Millisecond)
				}
			}
		})
	}
	if !p.join(10 * time.Minute) {
		return
	}
	if w.active != 0 || len(w.loading) != 0 {
		c.HarnessError("%d operations and %d loads are in progress in the end", w.active, len(w.loading))
	}
	p.do("end", time.Minute, func() {
		w.single = false
		n0 := 0
		for _, v := range w.vals {
			if v.del == 0 {
				n0++
			}
		}
		n := w.clear()
		if n > w.max {
			c.Fail("limit", "the cache keeps %d values, the limit is %d", n, w.max)
		}
		gone := 0
		for _, v := range w.vals {
			if v.del == 0 {
				gone++
				if !v.dropped && c.par("nodel") == 0 {
					c.Fail("leak", "the value %d of the key %d was loaded, the cache is cleared, but its deletion was never reported", v.id, v.key)
				}
			}
		}
		if n0-gone != n && c.par("nodel") == 0 {
			c.Fail("count", "Clear reports %d values, but deleted %d", n, n0-gone)
		}
		if k := w.clear(); k != 0 {
			c.Fail("count", "Clear of an empty cache reports %d values", k)
		}
	})
	p.noTasks("all the requests are answered", 0)
}

func init() {
	register("lru", []string{"C14"}, &scenario{gen: genLRU, run: runLRU})
	scnInfo["lru"] = scnDesc{
		real:   []string{"golibs/container/lru: Cache, ECache, ExpirableCache", "golibs/container/iterable"},
		stub:   []string{"load and deletion callbacks (written by the harness: slow, failing)", "goroutine scheduler, locks, channels, clocks (simulated)"},
		assume: []string{"callbacks end in bounded time and do not call the cache"},
	}
}
