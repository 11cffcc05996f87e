package main

import (
	"context"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/solarisdb/solaris/golibs/kvs"
	kvredis "github.com/solarisdb/solaris/golibs/kvs/redis"
	"github.com/solarisdb/solaris/zsim/sim"
	goredis "github.com/solarisdb/solaris/zthird/redis"
)

// ---------------------------------------------------------------- C20: Redis-backed key-value store

// rdClient is a process with a connection pool of its own
type rdClient struct {
	p    *proc
	st   kvs.Storage
	pool int
}

func genRedis(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "redis", seed)
	p.MaxSteps = 3_000_000
	p.JumpPct = 0
	p.P["keys"] = sim.Pick(r, 1, 1, 2, 3)
	ncl := sim.Pick(r, 1, 2, 2, 3)
	p.P["clients"] = ncl
	p.P["pool"] = sim.Pick(r, 1, 2, 4)
	p.P["page"] = sim.Pick(r, 1, 2, 10)
	ttl := sim.Pick(r, 5, 100, 3000)
	mode := sim.Pick(r, "calm", "delays", "resets", "resets", "retry", "outage", "mix")
	if mode == "delays" || mode == "mix" || mode == "retry" {
		p.Rates["net.delay"] = sim.Pick(r, 500, 3000)
		p.Rates["net.short"] = sim.Pick(r, 0, 5000)
	}
	if mode == "resets" || mode == "mix" || mode == "retry" {
		p.Rates["net.reset"] = sim.Pick(r, 200, 1500)
		p.Rates["net.dial"] = sim.Pick(r, 0, 0, 2000)
	}
	if mode == "mix" || mode == "resets" {
		p.Rates["net.stall"] = sim.Pick(r, 0, 300)
	}
	p.Rates["redis.again"] = sim.Pick(r, 0, 3000)
	p.P["strict"] = 1 // every request is sent once
	if mode == "retry" {
		p.P["strict"] = 0
	} else if mode == "calm" || mode == "delays" {
		p.P["strict"] = r.Intn(2)
	}
	p.P["calm"] = 0
	if mode == "calm" {
		p.P["calm"] = 1
	}
	p.P["timeout"] = sim.Pick(r, 3000, 3000, 1000) // ms
	if p.P["strict"] == 0 {
		p.P["timeout"] = 3000
	}
	if mode == "outage" || mode == "mix" {
		p.P["outage"] = 1 + r.Intn(3)
	}
	ttlPct := sim.Pick(r, 0, 30, 60)
	waitPct := sim.Pick(r, 0, 10, 30)
	na := ncl + r.Intn(3)
	p.Actors = make([][]Op, na)
	for i, budget := 0, 8+r.Intn(16); i < budget; i++ {
		a := r.Intn(na)
		o := Op{A: int64(r.Intn(p.P["keys"])), N: int64(i + 1), B: int64(r.U64() >> 20)}
		if r.Pct(ttlPct) {
			o.C = int64(1 + r.Intn(ttl*1000)) // us to live
			if r.Pct(30) {
				o.C += 1_000_000 - o.C%1_000_000 // whole seconds
			}
		}
		switch x := r.Intn(100); {
		case x < waitPct:
			o.K = "wait"
			o.D = sim.Pick(r, int64(0), 0, 1, 100, 5000, 1500000)
		case x < waitPct+8:
			o.K = "sleep"
			o.C = int64(1 + r.Intn(ttl*1500))
		default:
			o.K = sim.Pick(r, "create", "create", "get", "put", "cas", "cas", "cas", "cas", "del", "del", "list", "getmany", "putmany")
		}
		p.Actors[a] = append(p.Actors[a], o)
	}
	return p
}

func runRedis(c *Ctx) {
	w := &kvWorld{c: c, known: map[string][]string{}, exps: map[int64]int64{}, expT: map[int64]time.Time{}}
	d := newRedisd()
	d.page = c.par("page")
	d.safe = c.par("strict") == 0
	r := sim.NewRng(hashSeed("redis", c.p.Seed))
	var cls []*rdClient
	for i := 0; i < c.par("clients"); i++ {
		cl := &rdClient{p: newProc(c, fmt.Sprintf("client%d", i), nil), pool: c.par("pool")}
		opts := &goredis.Options{
			Addr: "redis:6379", Dialer: d.dial, PoolSize: cl.pool, ReadTimeout: time.Duration(c.par("timeout")) * time.Millisecond,
		}
		if c.par("strict") != 0 {
			opts.MaxRetries = -1
		}
		cl.p.do("new", time.Minute, func() { cl.st = kvredis.New(opts) })
		cls = append(cls, cl)
	}
	left := len(c.p.Actors)
	for i, ops := range c.p.Actors {
		ops, cl := ops, cls[i%len(cls)]
		cl.p.spawn(fmt.Sprintf("actor%d", i), func() {
			for _, o := range ops {
				w.execOn(cl.st, o)
			}
			left--
		})
	}
	if n := c.par("outage"); n > 0 {
		var next func()
		next = func() {
			if n--; n < 0 {
				return
			}
			sim.AddTimer(time.Duration(r.Intn(300_000))*time.Microsecond, nil, func() {
				if !c.faults {
					return
				}
				sim.Count("fault:redis-outage")
				d.outage()
				sim.AddTimer(time.Duration(1+r.Intn(sim.Pick(r, 100, 4000)))*time.Millisecond, nil, func() { d.down = false; next() })
			})
		}
		next()
	}
	cls[0].p.spawn("closer", func() {
		// callers that wait for a change get one
		for k := 0; left > 0 && k < 200; k++ {
			n := len(w.ops)
			sim.Sleep(20 * time.Second)
			if w.waits > 0 && w.busy == w.waits && w.waits == left && n == len(w.ops) {
				for x := 0; x < c.par("keys"); x++ {
					w.execOn(cls[0].st, Op{K: sim.Pick(c.rng, "del", "del", "put"), A: int64(x), N: int64(1000 + k*10 + x)})
				}
			}
		}
	})
	for _, cl := range cls {
		if !cl.p.join(60 * time.Minute) {
			return
		}
	}
	// the network recovers
	c.faults = false
	d.down = false
	sim.Sleep(20 * time.Second)
	for i, cl := range cls {
		cl := cl
		cl.p.do("heal", 10*time.Minute, func() {
			var err error
			for k := 0; k <= cl.pool+1; k++ {
				// connections that broke are found out one by one
				if _, err = cl.st.GetMany(context.Background(), kvKey(0)); err == nil {
					break
				}
			}
			if err != nil {
				c.Fail("heal", "client %d still fails although the server can be reached again: %v", i, err)
				return
			}
			if i == 0 {
				for x := 0; x < c.par("keys"); x++ {
					w.execOn(cl.st, Op{K: "get", A: int64(x)})
				}
				w.execOn(cl.st, Op{K: "list", N: 1})
			}
			if cc, ok := cl.st.(io.Closer); ok {
				if err := cc.Close(); err != nil {
					c.Fail("close", "closing the client fails: %v", err)
				}
			}
		})
		cl.p.noTasks("the client is closed", 0)
	}
	if len(c.viol) == 0 {
		w.checkRedis()
	}
}

const rdLate = 10 * time.Second // the longest time a request may be on its way

func (w *kvWorld) checkRedis() {
	c := w.c
	calm := c.par("calm") != 0
	ver2val := map[string]int64{}
	val2ver := map[int64]string{}
	for _, o := range w.ops {
		if !o.done {
			c.HarnessError("an unfinished operation: %v", o)
			return
		}
		if o.err == "other" && calm || o.err == "ctx" && (o.ctx == nil || o.ctx.cancelled == 0) || o.err == "exist" && o.kind != "create" || o.err == "conflict" && o.kind != "cas" ||
			o.err == "notexist" && inList(o.kind, "put", "putmany", "getmany", "list", "create") || strings.Contains(o.errText, "transaction failed") || strings.Contains(o.errText, "unknown command") {
			c.Fail("error", "unexpected error %q: %v", o.errText, o)
		}
		for _, b := range o.obs {
			if b.ver == "" {
				c.Fail("version", "a record has no version: %v", o)
			}
			if v, ok := ver2val[b.ver]; ok && v != b.val {
				c.Fail("version", "the version %s identifies two states (values %d and %d): %v", b.ver, v, b.val, o)
			}
			if v, ok := val2ver[b.val]; ok && v != b.ver {
				c.Fail("version", "the value %d has two versions %s and %s: %v", b.val, v, b.ver, o)
			}
			ver2val[b.ver], val2ver[b.val] = b.val, b.ver
		}
	}
	if len(c.viol) > 0 {
		return
	}
	l := &rdLin{w: w, ver2val: ver2val, writer: map[int64]*kvOp{}}
	for _, o := range w.ops {
		for _, v := range o.vals {
			l.writer[v] = o
		}
	}
	// waits end promptly
	limit := 3 * time.Second
	if !calm {
		limit = 20 * time.Second
	}
	for _, o := range w.ops {
		if o.kind != "wait" {
			continue
		}
		if o.ctx.cancelled != 0 && o.e1-max(o.e0, o.ctx.cancelled) > promptness {
			c.Fail("wait", "a wait returned %v after its context was cancelled: %v", o.e1-max(o.e0, o.ctx.cancelled), o)
		}
		wr := l.writer[ver2val[o.ver]]
		if wr == nil {
			continue
		}
		if _, emax := l.window(ver2val[o.ver]); emax != 0 && o.w1-max(emax, o.w0) > int64(limit) {
			c.Fail("wait", "a wait ended %v after the record had expired: %v", time.Duration(o.w1-emax), o)
		}
		for _, x := range w.ops {
			if x.err == "" && inList(x.kind, "put", "putmany", "cas", "del", "create") && inList(o.keys[0], x.keys...) && x.t0 > wr.t1 && x.t1 < o.t1 {
				if d := o.e1 - max(o.e0, x.e1); d > limit {
					c.Fail("wait", "a wait ended %v after the record was changed by %v: %v", d, x, o)
					break
				}
			}
		}
	}
	l.check()
}

// rdLin judges the history. The state is a list of key=value, sorted by key.
type rdLin struct {
	w       *kvWorld
	ver2val map[string]int64
	writer  map[int64]*kvOp
}

// window returns the time in which the value may disappear: the client tells the server how long the record lives
// when it sends it, so it lives longer by the time the request is on its way, or shorter by the rounding
func (l *rdLin) window(val int64) (from, to int64) {
	e, o := l.w.exps[val], l.writer[val]
	if e == 0 || o == nil {
		return 0, 0
	}
	way := o.w1 - o.w0
	if o.err != "" {
		way += int64(rdLate)
	}
	return e - int64(time.Millisecond) - int64(time.Microsecond), max(e, o.w0+int64(time.Millisecond)) + way + int64(time.Millisecond)
}

type rdState map[string]int64

func rdDecode(s string) rdState {
	st := rdState{}
	for _, f := range strings.Split(s, ";") {
		if k, v, ok := strings.Cut(f, "="); ok {
			n, _ := strconv.ParseInt(v, 10, 64)
			st[k] = n
		}
	}
	return st
}

func (st rdState) String() string {
	var ks []string
	for k, v := range st {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

func (st rdState) with(k string, v int64) rdState {
	n := rdState(set0(st))
	if v == 0 {
		delete(n, k)
	} else {
		n[k] = v
	}
	return n
}

// find returns the states in which the operation may find the keys, depending on when they expire
func (l *rdLin) find(st rdState, o *kvOp, w1 int64, keys ...string) []rdState {
	res := []rdState{st}
	for _, k := range keys {
		v := st[k]
		if v == 0 {
			continue
		}
		from, to := l.window(v)
		if to == 0 || from > w1 {
			continue
		}
		var next []rdState
		for _, x := range res {
			if to >= o.w0 {
				next = append(next, x)
			}
			next = append(next, x.with(k, 0))
		}
		res = next
	}
	return res
}

func (l *rdLin) may(ver string, cur int64) bool {
	if v, ok := l.ver2val[ver]; ok {
		return v == cur
	}
	if ver == "" || ver == noVersion {
		return false
	}
	for _, v := range l.ver2val {
		if v == cur {
			return false
		}
	}
	return true
}

func (l *rdLin) ops(o *kvOp) []*linOp {
	unsure := o.err == "other" || o.err == "ctx"
	mk := func(name string, keys []string, f func(st rdState) (rdState, bool)) *linOp {
		w1 := o.w1
		op := &linOp{t0: o.t0, t1: o.t1, name: name}
		if unsure {
			op.t1, op.opt = linForever, true
			w1 += int64(rdLate)
		}
		op.step = func(s string) []string {
			var res []string
			for _, st := range l.find(rdDecode(s), o, w1, keys...) {
				if n, ok := f(st); ok {
					res = append(res, n.String())
				}
			}
			return res
		}
		return op
	}
	one := func(f func(st rdState) (rdState, bool)) []*linOp { return []*linOp{mk(o.String(), o.keys, f)} }
	switch o.kind {
	case "create":
		return one(func(st rdState) (rdState, bool) {
			has := st[o.keys[0]] != 0
			if o.err == "exist" {
				return st, has && l.may(o.ver, st[o.keys[0]])
			}
			return st.with(o.keys[0], o.vals[0]), !has
		})
	case "put":
		return one(func(st rdState) (rdState, bool) { return st.with(o.keys[0], o.vals[0]), true })
	case "putmany":
		atomic := true
		for _, e := range o.exps {
			atomic = atomic && e == 0
		}
		if atomic {
			return one(func(st rdState) (rdState, bool) {
				for i, k := range o.keys {
					st = st.with(k, o.vals[i])
				}
				return st, true
			})
		}
		// the records are written one by one
		var res []*linOp
		for i, k := range o.keys {
			i, k := i, k
			res = append(res, mk(fmt.Sprintf("%s part %d", o, i), []string{k}, func(st rdState) (rdState, bool) { return st.with(k, o.vals[i]), true }))
		}
		return res
	case "cas":
		return one(func(st rdState) (rdState, bool) {
			cur := st[o.keys[0]]
			switch o.err {
			case "conflict":
				return st, cur != 0 && l.ver2val[o.ver] != cur
			case "notexist":
				return st, cur == 0
			}
			return st.with(o.keys[0], o.vals[0]), cur != 0 && l.may(o.ver, cur)
		})
	case "del":
		return one(func(st rdState) (rdState, bool) {
			if o.err == "notexist" {
				return st, st[o.keys[0]] == 0
			}
			return st.with(o.keys[0], 0), st[o.keys[0]] != 0
		})
	}
	if unsure {
		return nil
	}
	switch o.kind {
	case "get", "getmany":
		return one(func(st rdState) (rdState, bool) {
			if o.err == "notexist" {
				return st, st[o.keys[0]] == 0
			}
			got := map[string]int64{}
			for _, b := range o.obs {
				got[b.key] = b.val
			}
			for _, k := range o.keys {
				if got[k] != st[k] {
					return st, false
				}
			}
			return st, len(got) == len(o.obs)
		})
	case "list":
		var res []*linOp
		for x := 0; x < l.w.c.par("keys"); x++ {
			k := kvKey(int64(x))
			if !kvMatch(o.pattern, k) {
				if inList(k, o.keysRes...) {
					l.w.c.Fail("list", "a key that does not match is listed: %v", o)
				}
				continue
			}
			has := inList(k, o.keysRes...)
			res = append(res, mk(fmt.Sprintf("%s: %s %v", o, k, has), []string{k}, func(st rdState) (rdState, bool) { return st, (st[k] != 0) == has }))
		}
		for i := 1; i < len(o.keysRes); i++ {
			if o.keysRes[i] == o.keysRes[i-1] {
				l.w.c.Fail("list", "a key is listed twice: %v", o)
			}
		}
		return res
	case "wait":
		return one(func(st rdState) (rdState, bool) {
			cur := st[o.keys[0]]
			if o.err == "notexist" {
				return st, cur == 0
			}
			return st, cur != 0 && l.ver2val[o.ver] != cur
		})
	}
	return nil
}

func (l *rdLin) check() {
	c := l.w.c
	var ops []*linOp
	for _, o := range l.w.ops {
		ops = append(ops, l.ops(o)...)
	}
	ok, sure, deepest := linearize("", ops, 300_000)
	switch {
	case !sure:
		c.Probe("lin-budget")
	case !ok:
		var s []string
		for _, o := range l.w.ops {
			s = append(s, o.String())
		}
		c.Fail("linearizability", "no order of the operations explains the results: %s\n%s", deepest, strings.Join(s, "\n"))
	default:
		c.Probe("linearizable")
	}
}

func init() {
	register("redis", []string{"C20"}, &scenario{gen: genRedis, run: runRedis})
	scnInfo["redis"] = scnDesc{
		real: []string{"golibs/kvs/redis", "the go-redis client with its connection pool, retries and transactions", "golibs/ulidutils with oklog/ulid"},
		stub: []string{"Redis server (commands executed one by one, watched keys, expiration) and the TCP connections to it (delays, short reads, resets before or after the execution of a request, refused connections, outages)", "goroutine scheduler, locks, channels, contexts, timers, clocks, random numbers (simulated)"},
		assume: []string{"a client that repeats requests (MaxRetries) only meets broken connections whose request was not executed; with lost answers requests are sent once",
			"the server keeps its data over an outage", "a record lives longer than its expiration time by at most the time its request was on the way"},
	}
}
