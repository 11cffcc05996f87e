package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- C15: in-memory key-value store

type kvObs struct {
	key string
	val int64
	ver string
	exp int64
}

// kvOp is an executed operation
type kvOp struct {
	n       int
	kind    string
	keys    []string
	vals    []int64 // what is written
	exps    []int64 // expiration (simulated ns, 0: none)
	ver     string  // compared or waited for
	pattern string
	t0, t1  int64
	w0, w1  int64 // monotonic time
	e0, e1  time.Duration
	j0, j1  time.Duration
	ctx     *opCtx
	err     string // "", exist, notexist, conflict, ctx, other
	errText string
	obs     []kvObs
	keysRes []string
	done    bool
}

type kvWorld struct {
	c     *Ctx
	s     kvs.Storage
	ops   []*kvOp
	known map[string][]string // key -> versions seen
	nval  int64
	busy  int
	waits int
	exps  map[int64]int64 // value -> expiration
	expT  map[int64]time.Time
}

func genKVS(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "kvs", seed)
	p.MaxSteps = 400_000
	p.P["keys"] = sim.Pick(r, 1, 1, 2, 3)
	p.P["ttl"] = sim.Pick(r, 1, 10, 100, 3000)
	na := sim.Pick(r, 1, 2, 3, 4)
	budget := 8 + r.Intn(13)
	ttlPct := sim.Pick(r, 0, 30, 60)
	waitPct := sim.Pick(r, 0, 10, 30)
	p.Actors = make([][]Op, na)
	for i := 0; i < budget; i++ {
		a := r.Intn(na)
		o := Op{A: int64(r.Intn(p.P["keys"])), N: int64(i + 1), B: int64(r.U64() >> 20)}
		if r.Pct(ttlPct) {
			o.C = int64(1 + r.Intn(p.P["ttl"]*1000)) // us to live
		}
		switch x := r.Intn(100); {
		case x < waitPct:
			o.K = "wait"
			o.D = sim.Pick(r, int64(0), 0, 1, 100, 5000, 1500000)
		case x < waitPct+5:
			o.K = "sleep"
			o.C = int64(1 + r.Intn(p.P["ttl"]*1500))
		default:
			o.K = sim.Pick(r, "create", "create", "get", "put", "cas", "cas", "cas", "del", "del", "list", "getmany", "putmany")
		}
		p.Actors[a] = append(p.Actors[a], o)
	}
	return p
}

func kvKey(i int64) string { return fmt.Sprintf("k/%d", i) }

func (w *kvWorld) rec(key string, ttlUS int64, op *kvOp, ver string) kvs.Record {
	w.nval++
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(w.nval))
	r := kvs.Record{Key: key, Value: b, Version: ver}
	var exp int64
	if ttlUS > 0 {
		d := time.Duration(ttlUS) * time.Microsecond
		exp = int64(sim.Mono() + d)
		t := sim.Now().Add(d)
		if ttlUS%2 == 0 {
			t = t.Round(0)
		}
		r.ExpiresAt = &t
		w.expT[w.nval] = t
	}
	w.exps[w.nval] = exp
	op.keys, op.vals, op.exps = append(op.keys, key), append(op.vals, w.nval), append(op.exps, exp)
	return r
}

func (w *kvWorld) see(op *kvOp, r kvs.Record) {
	o := kvObs{key: r.Key, ver: r.Version}
	if len(r.Value) == 8 {
		o.val = int64(binary.BigEndian.Uint64(r.Value))
	}
	if o.val <= 0 || o.val > w.nval {
		w.c.Fail("value", "%s returns a record with the value %x, which nobody wrote", op.kind, r.Value)
	}
	if t, ok := w.expT[o.val]; ok != (r.ExpiresAt != nil) || ok && !t.Equal(*r.ExpiresAt) {
		w.c.Fail("value", "%s returns a record with the expiration time %v, which was written with %v (%v)", op.kind, r.ExpiresAt, t, ok)
	}
	op.obs = append(op.obs, o)
	w.known[r.Key] = append(w.known[r.Key], r.Version)
	// what the caller does with the answer must not touch the stored record
	for i := range r.Value {
		r.Value[i] = 0xff
	}
	if r.ExpiresAt != nil {
		*r.ExpiresAt = r.ExpiresAt.Add(-time.Hour)
	}
}

// spoil changes the buffers passed to a call that has returned
func spoil(rs ...kvs.Record) {
	for _, r := range rs {
		for i := range r.Value {
			r.Value[i] = 0xfe
		}
		if r.ExpiresAt != nil {
			*r.ExpiresAt = r.ExpiresAt.Add(-2 * time.Hour)
		}
	}
}

const noVersion = "01HQWY5CG00000000000000000"

func (w *kvWorld) version(key string, r *sim.Rng) string {
	k := w.known[key]
	if len(k) == 0 || r.Pct(5) {
		return sim.Pick(r, "", noVersion)
	}
	if r.Pct(75) {
		return k[len(k)-1]
	}
	return k[r.Intn(len(k))]
}

func kvErr(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, gerrors.ErrExist):
		return "exist"
	case errors.Is(err, gerrors.ErrNotExist):
		return "notexist"
	case errors.Is(err, gerrors.ErrConflict):
		return "conflict"
	case errors.Is(err, context.Canceled):
		return "ctx"
	}
	return "other"
}

func (w *kvWorld) exec(o Op) { w.execOn(w.s, o) }

// execOn executes the operation o of a client whose connection with the store is s
func (w *kvWorld) execOn(s kvs.Storage, o Op) {
	r := sim.NewRng(hashSeed("kv", w.c.p.Seed+uint64(o.B)))
	key := kvKey(o.A)
	op := &kvOp{n: len(w.ops), kind: o.K}
	var err error
	begin := func() {
		w.ops = append(w.ops, op)
		w.busy++
		op.w0, op.e0, op.j0, op.t0 = int64(sim.Mono()), effNow(), sim.Jumped(), sim.Tick()
	}
	bg := context.Background()
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.C) * time.Microsecond)
		return
	case "create":
		rec := w.rec(key, o.C, op, "")
		begin()
		var v string
		v, err = s.Create(bg, rec)
		if err == nil {
			op.obs = append(op.obs, kvObs{key: key, val: op.vals[0], ver: v})
			w.known[key] = append(w.known[key], v)
		} else if v != "" {
			op.ver = v
			w.known[key] = append(w.known[key], v)
		}
		spoil(rec)
	case "get":
		op.keys = []string{key}
		begin()
		var rec kvs.Record
		rec, err = s.Get(bg, key)
		if err == nil {
			w.see(op, rec)
		}
	case "getmany":
		for k := 0; k < w.c.par("keys"); k++ {
			op.keys = append(op.keys, kvKey(int64(k)))
		}
		begin()
		var rs []*kvs.Record
		rs, err = s.GetMany(bg, op.keys...)
		for _, x := range rs {
			if x != nil {
				w.see(op, *x)
			}
		}
	case "put":
		rec := w.rec(key, o.C, op, "")
		begin()
		var res kvs.Record
		res, err = s.Put(bg, rec)
		spoil(rec)
		if err == nil {
			w.see1(op, res)
		}
	case "putmany":
		var rs []kvs.Record
		for k := 0; k < w.c.par("keys"); k++ {
			if r.Pct(70) || k == 0 {
				ttl := o.C
				if r.Pct(30) {
					ttl = 0
				}
				rs = append(rs, w.rec(kvKey(int64(k)), ttl, op, ""))
			}
		}
		begin()
		err = s.PutMany(bg, rs)
		spoil(rs...)
	case "cas":
		op.ver = w.version(key, r)
		rec := w.rec(key, o.C, op, op.ver)
		begin()
		var res kvs.Record
		res, err = s.CasByVersion(bg, rec)
		spoil(rec)
		if err == nil {
			w.see1(op, res)
		}
	case "del":
		op.keys = []string{key}
		begin()
		err = s.Delete(bg, key)
	case "list":
		op.pattern = sim.Pick(r, "*", "k/*", "k/0", "k/[12]", "x*")
		begin()
		it, e := s.ListKeys(bg, op.pattern)
		err = e
		if e == nil {
			for it.HasNext() {
				k, ok := it.Next()
				if !ok {
					break
				}
				op.keysRes = append(op.keysRes, k)
			}
			it.Close()
			sort.Strings(op.keysRes)
		}
	case "wait":
		op.keys = []string{key}
		op.ver = w.version(key, r)
		ctx := newOpCtx(o.D)
		op.ctx = ctx
		w.waits++
		begin()
		err = s.WaitForVersionChange(ctx, key, op.ver)
		w.waits--
		w.c.Probe("wait-" + kvErr(err))
		defer ctx.cancel()
	}
	op.w1, op.e1, op.j1, op.t1, op.done = int64(sim.Mono()), effNow(), sim.Jumped(), sim.Tick(), true
	w.busy--
	op.err = kvErr(err)
	if err != nil {
		op.errText = err.Error()
		w.c.Probe(o.K + "-" + op.err)
	}
	if sim.S != nil {
		sim.Notef("%s", op)
	}
}

// see1 handles the record returned by a write, whose value may be the caller's own buffer
func (w *kvWorld) see1(op *kvOp, r kvs.Record) {
	op.obs = append(op.obs, kvObs{key: r.Key, val: op.vals[0], ver: r.Version})
	w.known[r.Key] = append(w.known[r.Key], r.Version)
}

func (o *kvOp) String() string {
	return fmt.Sprintf("#%d %s%v [%d-%d] vals=%v exps=%v ver=%q -> err=%q obs=%v keys=%v", o.n, o.kind, o.keys, o.t0, o.t1, o.vals, o.exps, o.ver, o.err, o.obs, o.keysRes)
}

func runKVS(c *Ctx) {
	w := &kvWorld{c: c, known: map[string][]string{}, exps: map[int64]int64{}, expT: map[int64]time.Time{}}
	p := newProc(c, "proc", nil)
	p.do("new", time.Minute, func() { w.s = inmem.New() })
	left := len(c.p.Actors)
	for i, ops := range c.p.Actors {
		ops := ops
		p.spawn(fmt.Sprintf("actor%d", i), func() {
			for _, o := range ops {
				w.exec(o)
			}
			left--
		})
	}
	p.spawn("closer", func() {
		// callers that wait for a change get one
		for k := 0; left > 0 && k < 200; k++ {
			n := len(w.ops)
			sim.Sleep(4 * time.Second)
			if w.waits > 0 && w.busy == w.waits && w.waits == left && n == len(w.ops) {
				for x := 0; x < c.par("keys"); x++ {
					w.exec(Op{K: sim.Pick(c.rng, "del", "del", "put"), A: int64(x), N: int64(1000 + k*10 + x)})
				}
			}
		}
	})
	if !p.join(30 * time.Minute) {
		return
	}
	p.noTasks("all the calls have returned", 0)
	w.check()
}

const promptness = 2 * time.Second

func (w *kvWorld) check() {
	c := w.c
	ver2val := map[string]int64{}
	val2ver := map[int64]string{}
	for _, o := range w.ops {
		if !o.done {
			c.HarnessError("an unfinished operation: %v", o)
			return
		}
		if o.err == "other" || o.err == "ctx" && (o.ctx == nil || o.ctx.cancelled == 0) || o.err == "exist" && o.kind != "create" || o.err == "conflict" && o.kind != "cas" ||
			o.err != "" && inList(o.kind, "put", "putmany", "getmany", "list") {
			c.Fail("error", "unexpected error %q: %v", o.errText, o)
		}
		for _, b := range o.obs {
			if b.ver == "" {
				c.Fail("version", "a record has no version: %v", o)
			}
			if v, ok := ver2val[b.ver]; ok && v != b.val {
				c.Fail("version", "the version %s identifies two states (values %d and %d): %v", b.ver, v, b.val, o)
			}
			if v, ok := val2ver[b.val]; ok && v != b.ver {
				c.Fail("version", "the value %d has two versions %s and %s: %v", b.val, v, b.ver, o)
			}
			ver2val[b.ver], val2ver[b.val] = b.val, b.ver
		}
	}
	if len(c.viol) > 0 {
		return
	}
	writer := map[int64]*kvOp{}
	for _, o := range w.ops {
		for _, v := range o.vals {
			writer[v] = o
		}
	}
	// waits end promptly
	for _, o := range w.ops {
		if o.kind != "wait" {
			continue
		}
		if o.ctx.cancelled != 0 && o.e1-max(o.e0, o.ctx.cancelled) > promptness {
			c.Fail("wait", "a wait returned %v after its context was cancelled: %v", o.e1-max(o.e0, o.ctx.cancelled), o)
		}
		val := ver2val[o.ver]
		wr := writer[val]
		if val == 0 && o.ver != "" && o.ver != noVersion {
			continue // the version of a value that was never read
		}
		if wr == nil || !inList(o.keys[0], wr.keys...) {
			if o.e1-o.e0 > promptness {
				c.Fail("wait", "a wait for the change of a version the record does not have took %v: %v", o.e1-o.e0, o)
			}
			continue
		}
		if e := w.exps[val]; e != 0 && o.w1 > e {
			// a caller that is held up between reading the clock and starting its timer may be late by that time
			if over := o.w1 - max(e, o.w0); time.Duration(over) > promptness+o.j1-o.j0 && o.e1-o.e0 > promptness {
				c.Fail("wait", "a wait ended %v after the record had expired: %v", time.Duration(over), o)
			}
		}
		for _, x := range w.ops {
			if x.err == "" && inList(x.kind, "put", "putmany", "cas", "del", "create") && inList(o.keys[0], x.keys...) && x.t0 > wr.t1 && x.t1 < o.t1 {
				if d := o.e1 - max(o.e0, x.e1); d > promptness {
					c.Fail("wait", "a wait ended %v after the record was changed by %v: %v", d, x, o)
					break
				}
			}
		}
	}
	l := &linKV{w: w, ver2val: ver2val, seen: map[string]bool{}}
	if len(w.ops) > 40 {
		return
	}
	if !l.search(0, map[string]int64{}) {
		if l.budget > 2_000_000 {
			c.Probe("lin-budget")
			return
		}
		var s []string
		for _, o := range w.ops {
			s = append(s, o.String())
		}
		c.Fail("linearizability", "no order of the operations explains the results:\n%s", strings.Join(s, "\n"))
	} else {
		c.Probe("linearizable")
	}
}

// linKV searches for a linearization (Wing & Gong with memory). The state maps keys to the value written last.
type linKV struct {
	w       *kvWorld
	ver2val map[string]int64
	seen    map[string]bool
	budget  int
}

func stateKey(done uint64, st map[string]int64) string {
	ks := make([]string, 0, len(st))
	for k, v := range st {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	return fmt.Sprint(done, ks)
}

func (l *linKV) search(done uint64, st map[string]int64) bool {
	l.budget++
	if l.budget > 2_000_000 {
		return false
	}
	if done == 1<<len(l.w.ops)-1 {
		return true
	}
	k := stateKey(done, st)
	if l.seen[k] {
		return false
	}
	l.seen[k] = true
	first := int64(1) << 62
	for i, o := range l.w.ops {
		if done&(1<<i) == 0 && o.t1 < first {
			first = o.t1
		}
	}
	for i, o := range l.w.ops {
		if done&(1<<i) != 0 || o.t0 > first {
			continue
		}
		for _, s := range l.expire(o, st) {
			if n, ok := l.apply(o, s); ok && l.search(done|1<<i, n) {
				return true
			}
		}
	}
	return false
}

// expire returns the states the operation may find, depending on when exactly it reads the clock
func (l *linKV) expire(o *kvOp, st map[string]int64) []map[string]int64 {
	var must, may []string
	for k, v := range st {
		e := l.w.exps[v]
		if e == 0 || e > o.w1 {
			continue
		}
		if e < o.w0 {
			must = append(must, k)
		} else {
			may = append(may, k)
		}
	}
	if len(must)+len(may) == 0 {
		return []map[string]int64{st}
	}
	var res []map[string]int64
	for m := 0; m < 1<<len(may); m++ {
		n := map[string]int64{}
		for k, v := range st {
			n[k] = v
		}
		for _, k := range must {
			delete(n, k)
		}
		for b, k := range may {
			if m&(1<<b) != 0 {
				delete(n, k)
			}
		}
		res = append(res, n)
	}
	return res
}

func (l *linKV) apply(o *kvOp, st map[string]int64) (map[string]int64, bool) {
	set := func() map[string]int64 {
		n := map[string]int64{}
		for k, v := range st {
			n[k] = v
		}
		for i, k := range o.keys {
			n[k] = o.vals[i]
		}
		return n
	}
	cur, ok := int64(0), false
	if len(o.keys) > 0 {
		cur, ok = st[o.keys[0]]
	}
	switch o.kind {
	case "create":
		if o.err == "" {
			return set(), !ok
		}
		return st, o.err == "exist" && ok && (o.ver == "" || l.may(o.ver, cur))
	case "get", "getmany":
		if o.err == "notexist" {
			return st, o.kind == "get" && !ok
		}
		got := map[string]int64{}
		for _, b := range o.obs {
			got[b.key] = b.val
		}
		n := 0
		for _, k := range o.keys {
			v, ok := st[k]
			if g, has := got[k]; has != ok || g != v {
				return st, false
			}
			if ok {
				n++
			}
		}
		return st, n == len(o.obs)
	case "put", "putmany":
		return set(), true
	case "cas":
		switch o.err {
		case "":
			return set(), ok && l.may(o.ver, cur)
		case "conflict":
			return st, ok && !l.must(o.ver, cur)
		}
		return st, o.err == "notexist" && !ok
	case "del":
		if o.err == "" {
			n := set0(st)
			delete(n, o.keys[0])
			return n, ok
		}
		return st, !ok
	case "list":
		var ks []string
		for k := range st {
			if kvMatch(o.pattern, k) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return st, fmt.Sprint(ks) == fmt.Sprint(o.keysRes)
	case "wait":
		switch o.err {
		case "ctx":
			return st, true
		case "notexist":
			return st, !ok
		}
		return st, ok && !l.must(o.ver, cur)
	}
	return st, false
}

// may the value cur have the version ver, must it? Versions that were told by a failed Create only are not known to belong to a certain value
func (l *linKV) may(ver string, cur int64) bool {
	if v, ok := l.ver2val[ver]; ok {
		return v == cur
	}
	return ver != "" && ver != noVersion && l.unseen(cur)
}

func (l *linKV) must(ver string, cur int64) bool { return l.ver2val[ver] == cur }

// unseen: nobody has learnt the version of the value
func (l *linKV) unseen(val int64) bool {
	for _, v := range l.ver2val {
		if v == val {
			return false
		}
	}
	return true
}

func set0(st map[string]int64) map[string]int64 {
	n := map[string]int64{}
	for k, v := range st {
		n[k] = v
	}
	return n
}

func kvMatch(pat, k string) bool {
	switch pat {
	case "*", "k/*":
		return true
	case "k/0":
		return k == "k/0"
	case "k/[12]":
		return k == "k/1" || k == "k/2"
	}
	return false
}

func init() {
	register("kvs", []string{"C15"}, &scenario{gen: genKVS, run: runKVS})
	scnInfo["kvs"] = scnDesc{
		real:   []string{"golibs/kvs/inmem", "golibs/ulidutils with oklog/ulid", "gobwas/glob"},
		stub:   []string{"goroutine scheduler, locks, channels, contexts, timers, clocks, random numbers (simulated)"},
		assume: []string{"the clock of the process is monotonic (no wall clock steps in these runs)"},
	}
}
