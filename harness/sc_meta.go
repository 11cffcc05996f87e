package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/sos"
	"github.com/solarisdb/solaris/zthird/ulid"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// ---------------------------------------------------------------- C10, C11: log metadata

// mtLog is a log the plan knows. Its tags are k (its number), g (a group), v (the number of the version)
type mtLog struct {
	k       int
	id      string
	tried   bool  // a creation has begun
	t0, t1  int64 // the creation: begin, acknowledged (0: not)
	chg     []int64
	del     []int64 // the begins of deletions that may hit it
	acked   map[string]int64
	sent    map[string]int64
	created time.Time
}

type mtWorld struct {
	c       *Ctx
	d       *durable
	srv     *server
	up      bool
	logs    []*mtLog
	ops     []*linOp
	groups  []string // by version number: the group
	kOf     []int    // by version number: the log
	inc     int
	calm    bool // nothing fails
	npay    int
	pages   int
	crashed bool
	booting bool
	spans   []*mtSpan
	nchunk  int
	chunkV  map[string]int // chunk value -> number
}

func genMeta(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "metadata", seed)
	p.MaxSteps = 3_000_000
	p.P["bunt"] = r.Intn(2)
	if prop == "C24" {
		p.P["bunt"], p.P["pg"] = 0, 1
	} else if p.P["bunt"] == 0 {
		p.P["pg"] = r.Intn(2)
	}
	nl := 1 + r.Intn(5)
	p.P["nlogs"] = nl
	if prop != "C11" {
		p.P["meta"] = sim.Pick(r, 0, 1, 1)
	} else {
		p.P["meta"] = sim.Pick(r, 0, 0, 0, 1)
	}
	if prop == "C11" && r.Pct(1) {
		p.P["many"] = 995 + r.Intn(12)
	}
	p.P["groups"] = 1 + r.Intn(3)
	p.P["pre"] = r.Intn(nl + 1) // created before
	p.P["conns"] = sim.Pick(r, 1, 2, 3, 64)
	if p.P["bunt"] == 0 {
		if r.Pct(50) {
			p.Rates["sql.read"] = sim.Pick(r, 200, 1000, 3000)
		}
		if r.Pct(50) {
			p.Rates["sql.write"] = sim.Pick(r, 200, 1000, 3000)
		}
		if r.Pct(70) {
			p.Rates["sql.delay"] = sim.Pick(r, 500, 3000)
		}
		if p.P["pg"] == 1 && r.Pct(40) {
			p.Rates["sql.rows"] = sim.Pick(r, 200, 1000, 3000)
		}
		if p.P["pg"] == 1 && r.Pct(30) {
			p.Rates["sql.stale"] = sim.Pick(r, 500, 3000)
		}
	}
	if r.Pct(30) {
		p.Rates["net.delay"] = sim.Pick(r, 500, 3000)
	}
	if r.Pct(20) {
		p.Rates["net.lost"] = sim.Pick(r, 200, 1000)
	}
	if r.Pct(30) {
		p.P["crash"] = 1 + r.Intn(sim.Pick(r, 300, 3000, 20000))
	}
	na := sim.Pick(r, 1, 2, 2, 3, 3, 4)
	max := 3 + r.Intn(8)
	for a := 0; a < na; a++ {
		var ops []Op
		for k := 1 + r.Intn(max); k > 0; k-- {
			o := Op{A: int64(r.Intn(nl)), B: int64(r.Intn(1 << 16)), C: int64(r.Intn(1 << 16)), D: int64(r.Intn(1 << 16)), N: int64(r.U64() >> 16)}
			if p.P["meta"] != 0 {
				o.K = sim.Pick(r, "create", "update", "update", "get", "get", "get", "delete", "page", "upsert", "upsert", "chunks", "chunks", "last", "pause", "delids", "purge")
			} else {
				o.K = sim.Pick(r, "create", "create", "update", "update", "delete", "page", "walk", "append", "append", "read", "count", "pause")
			}
			if r.Pct(3) {
				o.K = "badcond"
			}
			ops = append(ops, o)
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

// conditions which cannot be applied to logs
var badLogConds = []string{
	"tag('grp')", "tag('grp') =", "logID", "nope = 'x'", "'x' = tag('grp')", "tag('a', 'b') = 'x'", "tag('grp') != '~' or", "tag('grp') != '~' or nope = 'y'",
	"tag('grp') != '~' or tag('a', 'b') = 'y'", "tag('grp') != '~' and not (nope = 'z')", "not (nope = 'z') or tag('grp') != '~'", "tag('grp') > ['x']", "ctime > '2020-01-02T03:04:05Z'",
	"logID IN 'x'", "not", "((tag('grp') != '~')", "tag() != 'x'", "tag('grp') != '~' and (logID >= '0' or nope like 'x')", "logID >= '0' logID >= '1'", "logID => '0'",
}

// badCond sends a request with a condition that cannot be applied
func (w *mtWorld) badCond(r *sim.Rng) {
	cond := badLogConds[r.Intn(len(badLogConds))]
	bad := func(what string, n int64) {
		w.c.Fail("cond-accepted", "a request with the condition %q, which is not acceptable, %s %d", cond, what, n)
	}
	w.c.Probe("bad-condition")
	k := r.Intn(4)
	switch {
	case k == 0 && w.c.par("meta") != 0:
		var res *solaris.DeleteLogsResult
		err, lost := w.call("delete", func(ctx context.Context) (err error) {
			res, err = w.srv.meta.DeleteLogs(ctx, storage.DeleteLogsRequest{Condition: cond, MarkOnly: true})
			return
		})
		if !lost && err == nil && res != nil && len(res.DeletedIDs) > 0 {
			bad("deleted logs:", int64(len(res.DeletedIDs)))
		}
	case k == 0:
		if res, rr := w.srv.deleteLogs(cond); !rr.crashed && rr.err == nil && res != nil && len(res.DeletedIDs) > 0 {
			bad("deleted logs:", int64(len(res.DeletedIDs)))
		}
	case w.c.par("meta") != 0:
		var res *solaris.QueryLogsResult
		err, lost := w.call("query", func(ctx context.Context) (err error) {
			res, err = w.srv.meta.QueryLogs(ctx, storage.QueryLogsRequest{Condition: cond, Limit: 10})
			return
		})
		if !lost && err == nil && res != nil && len(res.Logs) > 0 {
			bad("was answered with logs:", int64(len(res.Logs)))
		}
	case k == 1:
		if res, rr := w.srv.queryLogs(&solaris.QueryLogsRequest{Condition: cond, Limit: 10}); !rr.crashed && rr.err == nil && res != nil && len(res.Logs) > 0 {
			bad("was answered with logs:", int64(len(res.Logs)))
		}
	case k == 2:
		if res, rr := w.srv.count(&solaris.QueryRecordsRequest{LogsCondition: cond, Limit: 10}, 0); !rr.crashed && rr.err == nil && res != nil && res.Total > 0 {
			bad("was answered with a total of", res.Total)
		}
	default:
		if res, rr := w.srv.query(&solaris.QueryRecordsRequest{LogsCondition: cond, Limit: 10}, 0); !rr.crashed && rr.err == nil && res != nil && len(res.Records) > 0 {
			bad("was answered with records:", int64(len(res.Records)))
		}
	}
}

// ---- the model. For each log: a byte for its status ('-' none, 'L' live, 'D' deleted), a number for its version,
// and for the chunks one number each (0: none)

const mtChunks = 3
const mtRec = 1 + 2 + mtChunks

func mtStatus(st string, k int) byte { return st[k*mtRec] }

func mtVer(st string, k int) int { return int(st[k*mtRec+1])<<8 | int(st[k*mtRec+2]) }

func mtSet(st string, k int, status byte, v int) string {
	b := []byte(st)
	b[k*mtRec], b[k*mtRec+1], b[k*mtRec+2] = status, byte(v>>8), byte(v)
	return string(b)
}

func mtChunk(st string, k, i int) int { return int(st[k*mtRec+3+i]) }

func (w *mtWorld) init() string {
	return strings.Repeat("-"+strings.Repeat("\x00", mtRec-1), len(w.logs))
}

func (w *mtWorld) begin(name string) *linOp {
	o := &linOp{t0: sim.Tick(), t1: linForever, opt: true, name: name, step: func(string) []string { return nil }}
	w.ops = append(w.ops, o)
	return o
}

// unknown: the operation ended, but it is not known with which result
func (o *linOp) unknown(err error) {
	o.t1 = sim.Tick()
	o.name += fmt.Sprintf("=?[%d-%d]", o.t0, o.t1)
}

func (w *mtWorld) newVer(k int, r *sim.Rng) (int, map[string]string) {
	v := len(w.groups)
	g := fmt.Sprint(r.Intn(w.c.par("groups")))
	w.groups = append(w.groups, g)
	w.kOf = append(w.kOf, k)
	return v, w.tags(v)
}

func (w *mtWorld) tags(v int) map[string]string {
	t := map[string]string{"k": fmt.Sprint(w.kOf[v]), "g": w.groups[v], "v": fmt.Sprint(v), "n'm": "o'" + w.groups[v]}
	if v%5 == 1 {
		t["bin\x01"] = "\t\"\x01\u200b\U000e0001\\<"
	}
	if v%3 == 0 {
		t["x"] = "only some versions have it"
	}
	return t
}

// verOf returns the version a log object shows, -1 if it is none at all
func (w *mtWorld) verOf(l *solaris.Log) int {
	var v int
	if _, err := fmt.Sscan(l.Tags["v"], &v); err != nil || v < 0 || v >= len(w.groups) {
		return -1
	}
	t := w.tags(v)
	for n, x := range t {
		if l.Tags[n] != x {
			return -1
		}
	}
	if len(l.Tags) != len(t) {
		return -1
	}
	return v
}

// mtCond is a condition for logs
type mtCond struct {
	text  string
	match func(w *mtWorld, k, v int) bool
}

func (w *mtWorld) cond(o Op, r *sim.Rng) mtCond {
	g := fmt.Sprint(r.Intn(w.c.par("groups")))
	k := int(o.A)
	q := sim.Pick(r, "'", "\"")
	tag := func(n, op, v string) string { return "tag(" + q + n + q + ") " + op + " " + q + v + q }
	switch r.Intn(11) {
	case 8, 9, 10:
		return w.condExpr(k, 2, q, r)
	case 0:
		return mtCond{"", func(*mtWorld, int, int) bool { return true }}
	case 1:
		return mtCond{tag("k", "=", fmt.Sprint(k)), func(_ *mtWorld, x, _ int) bool { return x == k }}
	case 2:
		return mtCond{tag("g", "!=", g), func(w *mtWorld, _, v int) bool { return w.groups[v] != g }}
	case 3:
		if id := w.logs[k].id; id != "" {
			return mtCond{"logID = " + q + id + q, func(_ *mtWorld, x, _ int) bool { return x == k }}
		}
		fallthrough
	case 4:
		return mtCond{tag("g", "=", g) + " AND NOT " + tag("k", "=", fmt.Sprint(k)), func(w *mtWorld, x, v int) bool { return w.groups[v] == g && x != k }}
	case 5:
		return mtCond{tag("g", "=", g) + " OR " + tag("k", "=", fmt.Sprint(k)), func(w *mtWorld, x, v int) bool { return w.groups[v] == g || x == k }}
	default:
		return mtCond{tag("g", "=", g), func(w *mtWorld, _, v int) bool { return w.groups[v] == g }}
	}
}

// condExpr is a condition of any shape over the tags and the IDs
func (w *mtWorld) condExpr(k, depth int, q string, r *sim.Rng) mtCond {
	if depth > 0 && r.Pct(65) {
		a := w.condExpr(k, depth-1, q, r)
		switch r.Intn(5) {
		case 0:
			return mtCond{"NOT (" + a.text + ")", func(w *mtWorld, x, v int) bool { return !a.match(w, x, v) }}
		case 1, 2:
			b := w.condExpr(r.Intn(len(w.logs)), depth-1, q, r)
			return mtCond{"(" + a.text + ") and (" + b.text + ")", func(w *mtWorld, x, v int) bool { return a.match(w, x, v) && b.match(w, x, v) }}
		}
		b := w.condExpr(r.Intn(len(w.logs)), depth-1, q, r)
		return mtCond{a.text + " OR " + b.text, func(w *mtWorld, x, v int) bool { return a.match(w, x, v) || b.match(w, x, v) }}
	}
	if r.Pct(15) && w.logs[k].id != "" {
		j := r.Intn(len(w.logs))
		if r.Pct(50) && w.logs[j].id != "" {
			return mtCond{"logID IN [" + q + w.logs[k].id + q + ", " + q + w.logs[j].id + q + "]", func(_ *mtWorld, x, _ int) bool { return x == k || x == j }}
		}
		return mtCond{"logID != " + q + w.logs[k].id + q, func(_ *mtWorld, x, _ int) bool { return x != k }}
	}
	val, name := func(w *mtWorld, x, v int) string { return w.groups[v] }, "g"
	cst := func() string { return fmt.Sprint(r.Intn(w.c.par("groups"))) }
	switch c := r.Intn(7); {
	case c < 2:
		val, name = func(_ *mtWorld, x, _ int) string { return fmt.Sprint(x) }, "k"
		cst = func() string { return fmt.Sprint(r.Intn(len(w.logs) + 1)) }
	case c == 3 || c == 2 && w.c.par("pg") != 0:
		// quotes within the name and the value
		val, name, q = func(w *mtWorld, x, v int) string { return "o'" + w.groups[v] }, "n'm", "\""
		cst = func() string { return "o'" + fmt.Sprint(r.Intn(w.c.par("groups"))) }
	case c == 2: // not with Postgres: a missing tag is null there
		val, name = func(*mtWorld, int, int) string { return "" }, "nosuchtag"
		cst = func() string { return sim.Pick(r, "", "0", "a") }
	}
	c := cst()
	left := "tag(" + q + name + q + ") "
	cmp := func(op string, f func(string) bool) mtCond {
		return mtCond{left + op + " " + q + c + q, func(w *mtWorld, x, v int) bool { return f(val(w, x, v)) }}
	}
	switch r.Intn(10) {
	case 0:
		return cmp("<", func(s string) bool { return s < c })
	case 1:
		return cmp(">", func(s string) bool { return s > c })
	case 2:
		return cmp("<=", func(s string) bool { return s <= c })
	case 3:
		return cmp(">=", func(s string) bool { return s >= c })
	case 4:
		return cmp("!=", func(s string) bool { return s != c })
	case 5, 6:
		d := c
		switch r.Intn(3) {
		case 0:
			c += "%"
			return cmp("LIKE", func(s string) bool { return strings.HasPrefix(s, d) })
		case 1:
			c = "%" + c
			return cmp("like", func(s string) bool { return strings.HasSuffix(s, d) })
		}
		return cmp("LIKE", func(s string) bool { return s == d })
	case 7, 8:
		d := cst()
		return mtCond{left + "IN [" + q + c + q + ", " + q + d + q + "]", func(w *mtWorld, x, v int) bool { s := val(w, x, v); return s == c || s == d }}
	}
	return cmp("=", func(s string) bool { return s == c })
}

// call executes f as a request, through the service or directly at the cached storage
func (w *mtWorld) call(name string, f func(ctx context.Context) error) (err error, lost bool) {
	srv := w.srv
	if v := sim.Fault("net.delay"); v != 0 {
		sim.Sleep(time.Duration(v*v) * time.Millisecond)
	}
	if !srv.up {
		return errDown, true
	}
	r := srv.raw(name, 30*time.Minute, func() (any, error) { sim.Acq(unsafe.Pointer(srv)); return nil, f(context.Background()) })
	if r.hung {
		w.c.Fail("hang", "the request %s does not return. Tasks of the server: %v", name, sim.Blocked(srv.node))
	}
	if r.crashed || r.hung {
		return errDown, true
	}
	return r.err, false
}

func mtCode(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, errDown):
		return "down"
	case errors.Is(err, serrors.ErrNotExist) || status.Code(err) == codes.NotFound:
		return "none"
	case errors.Is(err, serrors.ErrExhausted) || status.Code(err) == codes.ResourceExhausted:
		return "exhausted"
	}
	return "other"
}

// bad: an error that must not be there
func (w *mtWorld) bad(what string, err error) {
	if w.calm && w.srv.up && !w.srv.stopping && !w.crashed {
		w.c.Fail("error", "%s fails although nothing was disturbed: %v", what, err)
	}
}

func (w *mtWorld) learn(k int, l *solaris.Log, what string) {
	x := w.logs[k]
	if l.ID == "" {
		w.c.Fail("id", "%s returns a log without an ID", what)
	}
	if x.id == "" {
		x.id = l.ID
	} else if x.id != l.ID {
		w.c.Fail("id", "%s returns the ID %s for the log %d, which is %s", what, l.ID, k, x.id)
	}
	for _, o := range w.logs {
		if o != x && o.id == x.id {
			w.c.Fail("id", "the logs %d and %d have the same ID %s", o.k, x.k, x.id)
		}
	}
	if t := l.CreatedAt.AsTime(); x.created.IsZero() {
		x.created = t
	} else if d := t.Sub(x.created).Abs(); d > 0 && (w.c.par("pg") == 0 || d > time.Microsecond) {
		w.c.Fail("created", "%s: the log %d was created at %v, earlier %v was reported", what, k, t, x.created)
	}
}

func (w *mtWorld) live(k, v int) func(string) []string {
	return func(st string) []string {
		if mtStatus(st, k) == 'L' && (v < 0 || mtVer(st, k) == v) {
			return []string{st}
		}
		return nil
	}
}

func (w *mtWorld) gone(k int) func(string) []string {
	return func(st string) []string {
		if mtStatus(st, k) == 'L' {
			return nil
		}
		return []string{st}
	}
}

// mtSpan is a change in progress: answers from a cache may be older than it until it returns
type mtSpan struct {
	k      int // -1: any log
	t0, t1 int64
}

func (w *mtWorld) span(k int, t0 int64) func() {
	sp := &mtSpan{k: k, t0: t0}
	w.spans = append(w.spans, sp)
	return func() { sp.t1 = sim.Tick() }
}

// cached: the lookup of the log k may show what was there before the changes which were not over when it began
func (w *mtWorld) cached(o *linOp, k int) {
	t := o.t0
	for _, sp := range w.spans {
		if (sp.k < 0 || sp.k == k) && sp.t0 < o.t0 && (sp.t1 == 0 || sp.t1 >= o.t0) {
			t = min(t, sp.t0)
		}
	}
	o.t0 = t
}

func (o *linOp) is(res string, step func(string) []string) {
	o.t1, o.opt, o.step = sim.Tick(), false, step
	o.name += fmt.Sprintf("=%s[%d-%d]", res, o.t0, o.t1)
}

func (w *mtWorld) create(k int, r *sim.Rng) {
	x := w.logs[k]
	if x.tried {
		return
	}
	x.tried = true
	v, tags := w.newVer(k, r)
	o := w.begin(fmt.Sprintf("create(%d,v%d,g%s)", k, v, w.groups[v]))
	x.t0 = o.t0
	o.step = func(st string) []string {
		if mtStatus(st, k) != '-' {
			return nil
		}
		return []string{mtSet(st, k, 'L', v)}
	}
	var res *solaris.Log
	var err error
	if w.c.par("meta") != 0 {
		var lost bool
		if err, lost = w.call("create", func(ctx context.Context) (err error) {
			res, err = w.srv.meta.CreateLog(ctx, &solaris.Log{Tags: tags})
			return
		}); lost {
			res, err = nil, errDown
		}
	} else {
		var rr rpcRes
		res, rr = w.srv.createLog(&solaris.Log{Tags: tags})
		if err = rr.err; rr.crashed {
			err = errDown
		}
	}
	if err == nil && res == nil {
		w.c.Fail("result", "a creation returns neither a log nor an error")
	}
	if err != nil || res == nil {
		w.bad("create", err)
		o.unknown(err)
		return
	}
	if w.verOf(res) != v {
		w.c.Fail("tags", "a creation with the tags %v returns %v", tags, res.Tags)
	}
	o.is("ok", o.step)
	x.t1 = o.t1
	w.learn(k, res, "a creation")
}

func (w *mtWorld) update(k int, r *sim.Rng) {
	x := w.logs[k]
	if x.id == "" {
		return
	}
	v, tags := w.newVer(k, r)
	o := w.begin(fmt.Sprintf("update(%d,v%d,g%s)", k, v, w.groups[v]))
	o.step = func(st string) []string {
		if mtStatus(st, k) != 'L' {
			return nil
		}
		return []string{mtSet(st, k, 'L', v)}
	}
	x.chg = append(x.chg, o.t0)
	defer w.span(k, o.t0)()
	var res *solaris.Log
	var err error
	if w.c.par("meta") != 0 {
		var lost bool
		if err, lost = w.call("update", func(ctx context.Context) (err error) {
			res, err = w.srv.meta.UpdateLog(ctx, &solaris.Log{ID: x.id, Tags: tags})
			return
		}); lost {
			res, err = nil, errDown
		}
	} else {
		var rr rpcRes
		res, rr = w.srv.updateLog(&solaris.Log{ID: x.id, Tags: tags})
		if err = rr.err; rr.crashed {
			err = errDown
		}
	}
	switch mtCode(err) {
	case "ok":
		if res == nil {
			w.c.Fail("result", "an update returns neither a log nor an error")
			return
		}
		if w.verOf(res) != v {
			w.c.Fail("tags", "an update with the tags %v returns %v", tags, res.Tags)
		}
		w.learn(k, res, "an update")
		o.is("ok", o.step)
	case "none":
		o.is("none", w.gone(k))
	default:
		w.bad("update", err)
		o.unknown(err)
	}
}

func (w *mtWorld) get(k int) {
	x := w.logs[k]
	if x.id == "" {
		return
	}
	o := w.begin(fmt.Sprintf("get(%d)", k))
	o.step = func(st string) []string { return []string{st} }
	var res *solaris.Log
	err, lost := w.call("get", func(ctx context.Context) (err error) {
		l, err := w.srv.meta.GetLogByID(ctx, x.id)
		if err == nil {
			// the object is shared: copy it at once
			res = &solaris.Log{ID: l.ID, CreatedAt: l.CreatedAt, Tags: map[string]string{}}
			for n, v := range l.Tags {
				res.Tags[n] = v
			}
		}
		return
	})
	if lost {
		return
	}
	switch mtCode(err) {
	case "ok":
		v := w.verOf(res)
		if v < 0 || w.kOf[v] != k {
			w.c.Fail("tags", "the log %d has the tags %v", k, res.Tags)
			return
		}
		w.learn(k, res, "a lookup")
		w.cached(o, k)
		o.is(fmt.Sprintf("v%d", v), w.live(k, v))
	case "none":
		o.is("none", w.gone(k))
	default:
		w.bad("get", err)
	}
}

// hit notes that a deletion may remove logs
func (w *mtWorld) hit(t int64, c mtCond) {
	if c.text == "" {
		return
	}
	for _, x := range w.logs {
		for v, k := range w.kOf {
			if k == x.k && c.match(w, k, v) {
				x.del = append(x.del, t)
				break
			}
		}
	}
}

// del deletes the logs by IDs or by a condition. purge: with everything that belongs to them, also those deleted before;
// whether these are reported is left open.
func (w *mtWorld) del(ids []int, c mtCond, purge bool) {
	name := "delete(" + c.text + ")"
	var rq []string
	if len(ids) > 0 {
		for _, k := range ids {
			if w.logs[k].id == "" {
				return
			}
			rq = append(rq, w.logs[k].id)
		}
		name = fmt.Sprint("delete", ids)
		c = mtCond{"ids", func(_ *mtWorld, k, _ int) bool { return inInts(k, ids) }}
	}
	if purge {
		name = "purge" + name
	}
	o := w.begin(name)
	// versions that are created later can be hit as well
	t := o.t0
	step := func(want map[int]bool) func(string) []string {
		return func(st string) []string {
			n := st
			for k := range w.logs {
				if purge && mtStatus(st, k) == 'D' && (len(ids) == 0 || inInts(k, ids)) {
					continue
				}
				if c.text != "" && mtStatus(st, k) == 'L' && c.match(w, k, mtVer(st, k)) {
					if want != nil && !want[k] {
						return nil
					}
					n = mtSet(n, k, 'D', mtVer(st, k))
				} else if want != nil && want[k] {
					return nil
				}
			}
			return []string{n}
		}
	}
	for _, x := range w.logs {
		if c.text != "" {
			x.del = append(x.del, t) // maybe, whatever its tags are then
		}
	}
	o.step = step(nil)
	defer w.span(-1, o.t0)()
	var res *solaris.DeleteLogsResult
	var err error
	if w.c.par("meta") != 0 {
		var lost bool
		if err, lost = w.call("delete", func(ctx context.Context) (err error) {
			dr := storage.DeleteLogsRequest{IDs: rq, MarkOnly: !purge}
			if len(rq) == 0 {
				dr.Condition = c.text
			}
			res, err = w.srv.meta.DeleteLogs(ctx, dr)
			return
		}); lost {
			res, err = nil, errDown
		}
	} else {
		var rr rpcRes
		res, rr = w.srv.deleteLogs(c.text)
		if err = rr.err; rr.crashed {
			err = errDown
		}
	}
	switch mtCode(err) {
	case "ok":
		if res == nil {
			w.c.Fail("result", "a deletion returns neither a result nor an error")
			return
		}
		want := map[int]bool{}
		for _, id := range res.DeletedIDs {
			if id == "" {
				// only their number is reported
				all, n := step(nil), len(res.DeletedIDs)
				o.is(fmt.Sprint(n, " logs"), func(st string) []string {
					l := all(st)
					for k := range w.logs {
						if mtStatus(st, k) != mtStatus(l[0], k) {
							n--
						}
					}
					ok := n == 0
					n = len(res.DeletedIDs)
					if !ok {
						return nil
					}
					return l
				})
				w.c.Probe("delete")
				return
			}
			k := -1
			for _, x := range w.logs {
				if x.id == id {
					k = x.k
				}
			}
			if k < 0 {
				// a log whose creation was not answered
				for _, x := range w.logs {
					if x.id == "" && x.tried {
						k = -2
					}
				}
				if k == -1 {
					w.c.Fail("delete-other", "a deletion (%s) reports the unknown log %s", c.text, id)
				}
				o.is("?", step(nil)) // which ones exactly is not known
				return
			}
			if want[k] {
				w.c.Fail("delete-twice", "a deletion reports the log %d twice", k)
			}
			want[k] = true
		}
		o.is(fmt.Sprint(want), step(want))
		w.c.Probe("delete")
	case "none":
		if len(rq) > 0 {
			// one of them does not exist: nothing is deleted
			o.is("none", func(st string) []string {
				for _, k := range ids {
					if mtStatus(st, k) != 'L' {
						return []string{st}
					}
				}
				return nil
			})
			return
		}
		fallthrough
	default:
		w.bad("delete", err)
		o.unknown(err)
	}
}

// page reads one page of the list; it returns the page ID of the next one
func (w *mtWorld) page(c mtCond, from string, limit int64, deliver func(ids []string)) (next string, ok bool) {
	o := w.begin(fmt.Sprintf("list(%s,%s,%d)", c.text, from, limit))
	o.step = func(st string) []string { return []string{st} }
	var res *solaris.QueryLogsResult
	var err error
	if w.c.par("meta") != 0 {
		var lost bool
		if err, lost = w.call("list", func(ctx context.Context) (err error) {
			res, err = w.srv.meta.QueryLogs(ctx, storage.QueryLogsRequest{Condition: c.text, Page: from, Limit: limit})
			return
		}); lost {
			res, err = nil, errDown
		}
	} else {
		var rr rpcRes
		res, rr = w.srv.queryLogs(&solaris.QueryLogsRequest{Condition: c.text, PageID: from, Limit: limit})
		if err = rr.err; rr.crashed {
			err = errDown
		}
	}
	if err != nil || res == nil {
		if err == nil {
			w.c.Fail("result", "a list request returns neither a result nor an error")
		}
		if limit >= 0 {
			w.bad("list", err)
		}
		return "", false
	}
	lim := int(limit)
	if lim <= 0 {
		lim = 50
	}
	if limit < 0 && len(res.Logs) == 0 {
		return "", false // whatever a negative limit means
	}
	if len(res.Logs) > lim {
		w.c.Fail("limit", "a list request for %d logs returns %d", lim, len(res.Logs))
	}
	type ent struct{ k, v int }
	var got []ent
	var ids []string
	for _, l := range res.Logs {
		v := w.verOf(l)
		if v < 0 {
			w.c.Fail("tags", "a listed log has the tags %v", l.Tags)
			return "", false
		}
		k := w.kOf[v]
		w.learn(k, l, "a list")
		got = append(got, ent{k, v})
		ids = append(ids, l.ID)
		if l.ID < from {
			w.c.Fail("page", "the page %s has the log %s", from, l.ID)
		}
	}
	if deliver != nil {
		deliver(ids)
	}
	next = res.NextPageID
	total := res.Total
	if w.c.par("pg") != 0 {
		// the logs are counted by a statement of its own
		n := w.begin(fmt.Sprintf("total(%s)", c.text))
		n.t0 = o.t0
		n.is(fmt.Sprint(total), func(st string) []string {
			all, hidden := 0, 0
			for k, x := range w.logs {
				if mtStatus(st, k) == 'L' && c.match(w, k, mtVer(st, k)) {
					if x.id == "" {
						hidden++
					} else {
						all++
					}
				}
			}
			if total < int64(all) || total > int64(all+hidden) {
				return nil
			}
			return []string{st}
		})
	}
	o.is(fmt.Sprintf("%v next %s total %d", got, next, total), func(st string) []string {
		// the logs that are there, by ID
		var ks []int
		hidden := 0
		for k, x := range w.logs {
			if mtStatus(st, k) == 'L' && c.match(w, k, mtVer(st, k)) {
				if x.id == "" {
					hidden++ // nobody has ever seen it
				} else if x.id >= from {
					ks = append(ks, k)
				}
			}
		}
		sort.Slice(ks, func(i, j int) bool { return w.logs[ks[i]].id < w.logs[ks[j]].id })
		all := len(ks)
		want := ""
		if len(ks) > lim {
			want = w.logs[ks[lim]].id
			ks = ks[:lim]
		}
		if len(ks) != len(got) {
			return nil
		}
		for i, k := range ks {
			if got[i].k != k || got[i].v != mtVer(st, k) {
				return nil
			}
		}
		if want != next && hidden == 0 {
			return nil
		}
		if from == "" && w.c.par("pg") == 0 && (total < int64(all) || total > int64(all+hidden)) {
			return nil
		}
		return []string{st}
	})
	return next, true
}

// walk reads the list page by page
func (w *mtWorld) walk(c mtCond, limit int64) {
	t0 := sim.Tick()
	seen := map[string]int{}
	from := ""
	for i := 0; ; i++ {
		if i > 2*len(w.logs)+2 {
			w.c.Fail("endless", "the list by pages of %d does not end after %d pages, there are %d logs", limit, i, len(w.logs))
			return
		}
		next, ok := w.page(c, from, limit, func(ids []string) {
			for _, id := range ids {
				seen[id]++
				if seen[id] > 1 {
					w.c.Fail("twice", "the log %s is listed twice", id)
				}
			}
		})
		if !ok {
			return
		}
		if next == "" {
			break
		}
		from = next
	}
	t1 := sim.Tick()
	w.c.Probe("walk")
	for _, x := range w.logs {
		if x.t1 == 0 || x.t1 >= t0 {
			continue
		}
		// unchanged and not deleted: it matches throughout or not at all
		sure := true
		for _, t := range x.del {
			sure = sure && t > t1
		}
		for _, t := range x.chg {
			sure = sure && t > t1
		}
		if !sure {
			continue
		}
		v := -1
		for i, k := range w.kOf {
			if k == x.k {
				v = i
				break
			}
		}
		if want := c.match(w, x.k, v); want != (seen[x.id] > 0) {
			w.c.Fail("complete", "the log %d (%v) exists throughout, the list by pages of %d for %q has it %d times", x.k, w.tags(v), limit, c.text, seen[x.id])
		}
	}
}

func (w *mtWorld) upsert(o Op, r *sim.Rng) {
	k := int(o.A)
	x := w.logs[k]
	if x.id == "" {
		return
	}
	n := 1 + r.Intn(2)
	vals := map[int]int{}
	var cis []logfs.ChunkInfo
	for ; n > 0; n-- {
		i := r.Intn(mtChunks)
		if _, ok := vals[i]; ok {
			continue
		}
		w.nchunk++
		vals[i] = w.nchunk & 255
		cis = append(cis, mtInfo(i, w.nchunk))
	}
	ln := w.begin(fmt.Sprintf("upsert(%d,%v)", k, vals))
	ln.step = func(st string) []string {
		if mtStatus(st, k) != 'L' {
			return nil
		}
		b := []byte(st)
		for i, v := range vals {
			b[k*mtRec+3+i] = byte(v)
		}
		return []string{string(b)}
	}
	defer w.span(k, ln.t0)()
	err, lost := w.call("upsert", func(ctx context.Context) error { return w.srv.meta.UpsertChunkInfos(ctx, x.id, cis) })
	if lost {
		ln.unknown(err)
		return
	}
	switch mtCode(err) {
	case "ok":
		ln.is("ok", ln.step)
	case "none":
		ln.is("none", w.gone(k))
	default:
		w.bad("upsert", err)
		ln.unknown(err)
	}
}

func mtInfo(i, n int) logfs.ChunkInfo {
	var a, b ulid.ULID
	a[15], b[15], b[14] = byte(n), byte(n), 1
	return logfs.ChunkInfo{ID: fmt.Sprintf("01HZ%020d%02d", 0, i), Min: a, Max: b, RecordsCount: n}
}

func (w *mtWorld) chunks(k int, last bool) {
	x := w.logs[k]
	if x.id == "" {
		return
	}
	o := w.begin(fmt.Sprintf("chunks(%d)", k))
	o.step = func(st string) []string { return []string{st} }
	var res []logfs.ChunkInfo
	err, lost := w.call("chunks", func(ctx context.Context) error {
		if last {
			ci, err := w.srv.meta.GetLastChunk(ctx, x.id)
			if err == nil && ci.ID != "" {
				res = append(res, ci)
			}
			return err
		}
		cis, err := w.srv.meta.GetChunks(ctx, x.id)
		res = append(res, cis...)
		return err
	})
	if lost {
		return
	}
	if c := mtCode(err); c != "ok" {
		if c != "none" {
			w.bad("chunks", err)
		} else {
			o.is("none", w.gone(k))
		}
		return
	}
	got := [mtChunks]int{}
	prev := ""
	top := -1
	for _, ci := range res {
		var i int
		fmt.Sscan(ci.ID[len(ci.ID)-2:], &i)
		n := ci.RecordsCount
		if i < 0 || i >= mtChunks || ci != mtInfo(i, n) {
			w.c.Fail("chunk", "the chunk list of the log %d has %v", k, ci)
			return
		}
		if ci.ID <= prev {
			w.c.Fail("order", "the chunk list of the log %d is not sorted: %v", k, res)
		}
		prev = ci.ID
		got[i] = n & 255
		top = i
	}
	w.cached(o, k)
	o.is(fmt.Sprintf("%v,last=%v", got, last), func(st string) []string {
		if mtStatus(st, k) != 'L' {
			return nil
		}
		for i := range got {
			if last && i < top {
				continue
			}
			if mtChunk(st, k, i) != got[i] {
				return nil
			}
		}
		return []string{st}
	})
}

func (w *mtWorld) append(k int, r *sim.Rng) {
	x := w.logs[k]
	if x.id == "" {
		return
	}
	rq := &solaris.AppendRecordsRequest{LogID: x.id}
	var pays []string
	for i := 1 + r.Intn(3); i > 0; i-- {
		w.npay++
		p := fmt.Sprintf("r%d", w.npay)
		pays = append(pays, p)
		rq.Records = append(rq.Records, &solaris.Record{Payload: []byte(p)})
	}
	o := w.begin(fmt.Sprintf("append(%d)", k))
	o.step = func(st string) []string { return []string{st} }
	for _, p := range pays {
		x.sent[p] = o.t0
	}
	defer w.span(k, o.t0)()
	res, rr := w.srv.append(rq, 0)
	if rr.crashed {
		return
	}
	switch mtCode(rr.err) {
	case "ok":
		if res == nil || res.Added != int64(len(pays)) {
			w.c.Fail("result", "an append of %d records returns %v", len(pays), res)
		}
		o.is("ok", w.live(k, -1))
		for _, p := range pays {
			x.acked[p] = o.t1
		}
	case "none":
		o.is("none", w.gone(k))
	default:
		if len(x.del) == 0 {
			w.bad("append", rr.err)
		}
	}
}

func (w *mtWorld) read(k int, limit int64) {
	x := w.logs[k]
	if x.id == "" {
		return
	}
	o := w.begin(fmt.Sprintf("read(%d)", k))
	o.step = func(st string) []string { return []string{st} }
	res, rr := w.srv.query(&solaris.QueryRecordsRequest{LogIDs: []string{x.id}, Limit: limit}, 0)
	if rr.crashed {
		return
	}
	switch mtCode(rr.err) {
	case "ok":
		if res == nil {
			w.c.Fail("result", "a read returns neither records nor an error")
			return
		}
		seen := map[string]bool{}
		for _, rec := range res.Records {
			p := string(rec.Payload)
			if seen[p] {
				w.c.Fail("record", "the record %s of the log %d is there twice", p, k)
			}
			seen[p] = true
			if _, ok := x.sent[p]; !ok {
				w.c.Fail("record", "the log %d has the record %s, which was not written there", k, p)
			}
		}
		t0 := o.t0
		if len(res.Records) > 0 {
			w.cached(o, k)
			o.is(fmt.Sprint(len(seen), " records"), w.live(k, -1))
		}
		if limit < 100 {
			return
		}
		for p, t := range x.acked {
			if t < t0 && !seen[p] {
				deleted := false
				for _, d := range x.del {
					deleted = deleted || d < sim.Tick()
				}
				if !deleted {
					w.c.Fail("lost", "the log %d has not the acknowledged record %s", k, p)
				}
			}
		}
	case "none":
		o.is("none", w.gone(k))
	default:
		if len(x.del) == 0 && limit > 0 {
			w.bad("read", rr.err)
		}
	}
}

func (w *mtWorld) exec(o Op) {
	r := sim.NewRng(hashSeed("mt", w.c.p.Seed+uint64(o.N)))
	k := int(o.A)
	switch o.K {
	case "create":
		w.create(k, r)
	case "update":
		w.update(k, r)
	case "get":
		w.get(k)
	case "delete":
		w.del(nil, w.cond(o, r), false)
	case "delids":
		ids := []int{k}
		if y := r.Intn(len(w.logs)); y != k && r.Pct(50) {
			ids = append(ids, y)
		}
		w.del(ids, mtCond{}, false)
	case "purge":
		if r.Pct(50) {
			w.del([]int{k}, mtCond{}, true)
		} else {
			w.del(nil, w.cond(o, r), true)
		}
	case "page":
		from := ""
		if y := w.logs[r.Intn(len(w.logs))]; y.id != "" && r.Pct(60) {
			from = y.id
		}
		lim := sim.Pick(r, int64(1), 2, 3, 10, 100, 1000, 0, -1, 1<<40)
		w.page(w.cond(o, r), from, lim, nil)
	case "walk":
		w.walk(w.cond(o, r), sim.Pick(r, int64(1), 1, 2, 3, 0, 1000))
	case "upsert":
		w.upsert(o, r)
	case "chunks":
		w.chunks(k, false)
	case "last":
		w.chunks(k, true)
	case "append":
		w.append(k, r)
	case "read":
		w.read(k, sim.Pick(r, int64(100), 100, 1000, 1, 0))
	case "count":
		c := w.cond(o, r)
		res, rr := w.srv.count(&solaris.QueryRecordsRequest{LogsCondition: c.text, Limit: 100}, 0)
		if !rr.crashed && rr.err == nil && (res == nil || res.Total >= 0 && res.Count > res.Total || res.Count > int64(w.npay) || res.Total > int64(w.npay)) {
			w.c.Fail("count", "a count returns %v, %d records were written", res, w.npay)
		}
	case "badcond":
		w.badCond(r)
	case "pause":
		sim.Sleep(us(o.B % 3000))
	}
}

func (w *mtWorld) boot() bool {
	w.booting = true
	defer func() { w.booting = false }()
	for i := 0; i < 20; i++ {
		w.inc++
		s := newServer(w.c, fmt.Sprintf("srv%d", w.inc), w.d, srvCfg{
			bunt:      w.c.par("bunt") != 0,
			chunk:     chunkfs.Config{NewSize: 4096, MaxChunkSize: 16384, MaxGrowIncreaseSize: 4096},
			maxOpened: 5, log: logfs.Config{MaxRecordsLimit: 1000, MaxBunchSize: 10000, MaxLocks: 3}, noScanner: true,
		})
		s.node.OnCrash(func() {
			w.up = false
			w.panics(s)
		})
		w.srv = s
		faults := w.c.faults && !w.calm
		if s.start(w.d) {
			w.up = true
			return true
		}
		if s.startErr != nil && !s.node.Dead() {
			if !faults {
				w.c.Fail("start", "the server does not start: %v", s.startErr)
				return false
			}
			s.node.OnCrash(func() {})
			sim.Crash(s.node, "start failed")
		}
		sim.Sleep(20 * time.Millisecond)
	}
	w.c.Fail("start", "the server did not start in 20 attempts")
	return false
}

func (w *mtWorld) panics(s *server) {
	for _, p := range s.node.Panics {
		if s.panicSeen {
			return
		}
		s.panicSeen = true
		// the server stops itself if the metadata storage fails while it writes
		if w.d.sql.upErr+w.d.pg.upErr > 0 && strings.HasPrefix(fmt.Sprint(p.Value), "unrecoverable error") {
			w.c.Probe("fail-stop")
			return
		}
		w.c.Fail("panic", "the server process panics in %s: %s\n%s", p.Task, p.Value, clip(p.Stack, 1000))
	}
}

func runMeta(c *Ctx) {
	w := &mtWorld{c: c}
	disk := sos.NewDisk("disk")
	disk.Reliable = []string{"/data/meta"}
	disk.Mkdirs("/data/meta")
	disk.Mkdirs(dataDir)
	w.d = &durable{disk: disk, sql: newSQL(), pg: newPG(c), remote: newRemote()}
	for i := 0; i < c.par("nlogs"); i++ {
		w.logs = append(w.logs, &mtLog{k: i, acked: map[string]int64{}, sent: map[string]int64{}})
	}
	faults := c.faults
	c.faults, w.calm = false, true
	if !w.boot() {
		return
	}
	r := sim.NewRng(hashSeed("meta", c.p.Seed))
	for k := 0; k < c.par("pre"); k++ {
		w.create(k, r)
	}
	if n := c.par("many"); n > 0 {
		w.many(n, r)
		return
	}
	c.faults = faults
	w.calm = len(c.p.Rates) == 0 || len(c.p.Rates) == 1 && c.p.Rates["net.delay"]+c.p.Rates["sql.delay"] > 0
	left := len(c.p.Actors)
	done := make(chan struct{}, 1)
	for i, ops := range c.p.Actors {
		ops := ops
		sim.GoNamed(fmt.Sprintf("client%d", i), nil, func() {
			for _, o := range ops {
				for j := 0; j < 5000 && !w.up && len(c.viol) == 0; j++ {
					sim.Sleep(5 * time.Millisecond)
				}
				if len(c.viol) > 0 {
					break
				}
				w.exec(o)
			}
			if left--; left == 0 {
				sim.SendNow(done, struct{}{})
			}
		})
	}
	if n := c.par("crash"); n > 0 {
		w.crashed = true // errors are possible
		w.srv.node.ArmCrash(int64(n))
		sim.GoNamed("operator", nil, func() {
			for left > 0 && len(c.viol) == 0 {
				sim.Sleep(5 * time.Millisecond)
				if !w.up && left > 0 {
					c.Probe("crash")
					w.boot()
					return
				}
			}
		})
	} else {
		sim.GoNamed("operator", nil, func() {
			for left > 0 && len(c.viol) == 0 {
				sim.Sleep(20 * time.Millisecond)
				if !w.up && left > 0 {
					w.boot() // it has stopped itself
				}
			}
		})
	}
	sim.Recv(done)
	if len(c.viol) > 0 {
		return
	}
	c.faults, w.calm, w.crashed = false, true, false
	w.srv.node.Disarm()
	w.panics(w.srv)
	if c.rng.Pct(30) && w.up {
		if !w.srv.shutdown(5 * time.Minute) {
			c.Fail("shutdown-hang", "the shutdown does not end: %v", clip(fmt.Sprint(sim.Blocked(w.srv.node)), 1000))
			return
		}
		w.srv.node.OnCrash(func() {})
		sim.Crash(w.srv.node, "stopped")
		w.up = false
	}
	for i := 0; !w.up && (i < 100 || w.booting && i < 6000); i++ {
		if w.srv.node.Dead() && !w.booting {
			if !w.boot() {
				return
			}
		}
		sim.Sleep(10 * time.Millisecond)
	}
	w.final(r)
	if len(c.viol) > 0 {
		return
	}
	if ok, sure, deepest := linearize(w.init(), w.ops, 150_000); !sure {
		c.Probe("lin-budget")
	} else if !ok {
		c.Fail("linearizability", "no order of the requests explains their results: %s", deepest)
	} else {
		c.Probe("linearizable")
	}
}

// final: nothing fails any more, everything is looked at
func (w *mtWorld) final(r *sim.Rng) {
	all := mtCond{"", func(*mtWorld, int, int) bool { return true }}
	w.walk(all, sim.Pick(r, int64(1), 2, 100))
	for k := range w.logs {
		if w.c.par("meta") != 0 {
			w.get(k)
			w.chunks(k, false)
			w.chunks(k, true)
		} else {
			w.read(k, 1000)
			w.append(k, r)
			w.read(k, 1000)
		}
		w.update(k, r)
		if len(w.c.viol) > 0 {
			return
		}
	}
	w.page(all, "", 100, nil)
	if w.c.par("meta") == 0 {
		// what is readable together is what is readable alone
		res, rr := w.srv.count(&solaris.QueryRecordsRequest{}, 0)
		if rr.err != nil || rr.crashed || res == nil {
			w.c.Fail("error", "a count over all logs fails: %v", rr.err)
		}
	}
	w.panics(w.srv)
}

// many: more logs than are merged
func (w *mtWorld) many(n int, r *sim.Rng) {
	c := w.c
	var last string
	made := len(w.logs[:c.par("pre")])
	for i := 0; i < n; i++ {
		l, rr := w.srv.createLog(&solaris.Log{Tags: map[string]string{"m": fmt.Sprint(i % 2), "last": fmt.Sprint(i == n-1)}})
		if rr.err != nil || rr.crashed || l == nil {
			c.Fail("error", "the creation of the log %d fails: %v", i, rr.err)
			return
		}
		last = max(last, l.ID)
		made++
	}
	// the record is in the log which is the last one in the list
	if _, rr := w.srv.append(&solaris.AppendRecordsRequest{LogID: last, Records: []*solaris.Record{{Payload: []byte("x")}}}, 0); rr.err != nil || rr.crashed {
		c.Fail("error", "the append fails: %v", rr.err)
		return
	}
	for _, cond := range []string{"", "logID >= '0'"} {
		cnt, rr := w.srv.count(&solaris.QueryRecordsRequest{LogsCondition: cond, Limit: 10}, 0)
		switch code := mtCode(rr.err); {
		case code == "exhausted" && made > 1000:
		case code != "ok":
			c.Fail("error", "a count over %d logs fails: %v", made, rr.err)
		case cnt == nil || cnt.Total != 1:
			c.Fail("complete", "a count over %d logs returns %v, one record is there", made, cnt)
		}
		res, rr := w.srv.query(&solaris.QueryRecordsRequest{LogsCondition: cond, Limit: 10}, 0)
		switch code := mtCode(rr.err); {
		case code == "exhausted" && made > 1000:
		case code != "ok":
			c.Fail("error", "a read over %d logs fails: %v", made, rr.err)
		case res == nil || len(res.Records) != 1:
			c.Fail("complete", "a read over %d logs returns %v, one record is there", made, res)
		}
		if len(c.viol) > 0 {
			return
		}
	}
	seen, from := 0, ""
	for {
		res, rr := w.srv.queryLogs(&solaris.QueryLogsRequest{PageID: from, Limit: sim.Pick(r, int64(300), 1000, 2000)})
		if rr.err != nil || rr.crashed || res == nil {
			c.Fail("error", "the list fails: %v", rr.err)
			return
		}
		seen += len(res.Logs)
		if from = res.NextPageID; from == "" || seen > made {
			break
		}
	}
	if seen != made {
		c.Fail("complete", "the list has %d logs, there are %d", seen, made)
	}
	res, rr := w.srv.deleteLogs("logID >= '0'")
	if rr.err != nil || rr.crashed || res == nil || len(res.DeletedIDs) != made {
		c.Fail("complete", "the deletion of %d logs reports %d, %v", made, len(res.GetDeletedIDs()), rr.err)
	}
	ls, rr := w.srv.queryLogs(&solaris.QueryLogsRequest{})
	if rr.err != nil || rr.crashed || ls == nil || len(ls.Logs) != 0 || ls.Total != 0 {
		c.Fail("complete", "after the deletion of all logs %d are listed, %v", len(ls.GetLogs()), rr.err)
	}
	c.Probe("many")
}

func init() {
	register("metadata", []string{"C10", "C11", "C24"}, &scenario{gen: genMeta, run: runMeta})
	scnInfo["metadata"] = scnDesc{
		real: []string{"pkg/api", "pkg/storage/cache", "pkg/storage/buntdb with github.com/tidwall/buntdb (C10, C11)", "pkg/storage/postgres with database/sql and sqlx (C24 always, C10 and C11 in a quarter of the runs)", "pkg/storage/logfs", "pkg/storage/chunkfs", "golibs/container/lru", "pkg/ql"},
		stub: []string{"the PostgreSQL server: an interpreter for the SQL text and the schema of the migrations with transactions, constraints and cascades, behind a database/sql driver with failing, slow and cut sessions", "an in-memory stand-in for the whole SQL store with delays, failures and lost answers (C10, C11 in a quarter of the runs)", "remote object store", "gRPC transport", "file system, file mapping, clocks, goroutine scheduler (simulated)"},
		assume: []string{"one server process at a time uses the metadata", "the metadata file of buntdb is written without errors and a transaction is written atomically",
			"the database orders strings bytewise, runs at READ COMMITTED, executes one writing transaction at a time and keeps microseconds", "conditions on a tag that a log does not have are not judged with PostgreSQL, where they are neither true nor false"},
	}
}
