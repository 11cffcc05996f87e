package main

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/sos"
)

// The log scenario: clients append to, read, page, count, create and delete logs of one server while a chaos actor
// crashes and restarts it, breaks disks and the remote store, steps clocks and stalls it. Everything that was
// observed is judged against the final contents at the end.

const maxInt = int64(^uint64(0) >> 1)

type appRec struct {
	no      int64
	log     int
	sizes   []int
	t0, t1  int64
	acked   bool
	unknown bool // crashed or the answer was lost
	added   int
	ids     []string
	err     error
	first   string // filled in by the final check
	last    string
	stored  int
}

type logState struct {
	idx      int
	id       string
	tags     map[string]string
	t0, t1   int64
	delT0    int64 // a deletion was requested (0 - no)
	delT1    int64 // and acknowledged
	known    []string
	lastID   string
	final    []frec
	finalIdx map[string]int
}

// frec is one record of the final contents
type frec struct {
	id      string
	log     int
	app     *appRec
	idx     int
	hash    uint64
	created int64 // ms
}

type rrec struct {
	id, log string
	hash    uint64
	n       int
	created int64
	head    [8]byte
}

type cond struct {
	kind int
	a, b int64 // ms
	ex   *cexpr
	bad  string // a condition that is not acceptable (kind 11)
}

var badConds = []string{
	"ctime LIKE '2026%'", "ctime like '2026' or ctime > '2020-01-02T03:04:05Z'", "ctime > '2020-01-02T03:04:05Z' and not ctime like '2026'",
	"ctime", "ctime >", "ctime > 'tomorrow or so'", "ctime > '-1.x5h'", "ctime > '-5y'", "ctime > '-h'", "ctime > '2020-13-45T00:00:00Z'", "'2020-01-02T03:04:05Z' < ctime", "ctime = ctime", "ctime IN ['2026-11-19']",
	"ctime > '2020-01-02T03:04:05Z' and", "not", "(ctime > '2020-01-02T03:04:05Z'", "logID = 'x'", "created > '2020-01-02T03:04:05Z'",
	"ctime > '2020-01-02T03:04:05Z' or payload = 'x'", "ctime => '2020-01-02T03:04:05Z'", "ctime > '2020-01-02T03:04:05Z' ctime < '2030-01-02T03:04:05Z'",
}

// cexpr is a condition of any shape on the creation time
type cexpr struct {
	op   string // and, or, not or a comparison
	l, r *cexpr
	ns   int64  // the constant
	text string // how it is written
}

func (e *cexpr) String() string {
	switch e.op {
	case "not":
		return "not (" + e.l.String() + ")"
	case "and":
		return "(" + e.l.String() + ") and (" + e.r.String() + ")"
	case "or":
		return e.l.String() + " or " + e.r.String()
	}
	return "ctime " + e.op + " '" + e.text + "'"
}

func (e *cexpr) match(ns int64) bool {
	switch e.op {
	case "not":
		return !e.l.match(ns)
	case "and":
		return e.l.match(ns) && e.r.match(ns)
	case "or":
		return e.l.match(ns) || e.r.match(ns)
	case "<":
		return ns < e.ns
	case ">":
		return ns > e.ns
	case "<=":
		return ns <= e.ns
	case ">=":
		return ns >= e.ns
	case "=":
		return ns == e.ns
	}
	return ns != e.ns
}

func pickExpr(depth int, t func() int64, r *sim.Rng) *cexpr {
	if depth > 0 && r.Pct(70) {
		e := &cexpr{op: sim.Pick(r, "and", "and", "or", "or", "not")}
		e.l = pickExpr(depth-1, t, r)
		if e.op != "not" {
			e.r = pickExpr(depth-1, t, r)
		}
		return e
	}
	e := &cexpr{op: sim.Pick(r, "<", "<", ">", ">", "<=", ">=", "=", "!="), ns: t() * 1e6}
	switch r.Intn(12) {
	case 0: // between two milliseconds
		e.ns += int64(r.Range(1, 999999))
		e.text = strconv.FormatInt(e.ns, 10)
	case 1: // long before or after all records
		e.ns = sim.Pick(r, int64(math.MinInt64), int64(math.MaxInt64))
		e.text = "1931-02-03 04:05:06"
		if e.ns > 0 {
			e.text = "2099-02-03 04:05:06"
		} else if r.Pct(30) {
			e.text = "-40000d"
		}
	case 2, 3, 4: // in another form
		l := ctimeForms[r.Intn(len(ctimeForms))]
		tm := time.Unix(0, e.ns+int64(r.Intn(3))*int64(sim.Pick(r, time.Second, time.Hour, 30*24*time.Hour))).UTC()
		if strings.Contains(l, "-07") && !strings.Contains(l, "MST") {
			tm = tm.In(time.FixedZone("", 3600*r.Range(-11, 11)))
		}
		e.text = tm.Format(l)
		tm, err := time.Parse(l, e.text)
		if err != nil {
			panic(err)
		}
		e.ns = tm.UnixNano()
	default:
		e.text = msTime(e.ns / 1e6)
	}
	return e
}

// the absolute forms of a time which can be used in conditions
var ctimeForms = []string{
	"Jan 2, 2006 3:04:05 PM", "Mon Jan _2 15:04:05 2006", "Mon Jan 02 15:04:05 -0700 2006", "Monday, 06-Jan-02 15:04:05 MST", "Mon, 02 Jan 2006 15:04:05 MST",
	"Mon, 02 Jan 2006 15:04:05 -0700", "Mon, 2 Jan 2006 15:04:05 -0700", "02 Jan 2006, 15:04", "2006-Jan-02", "02 January 2006",
	"02/01/2006 15:04:05.000", "02/01/2006 15:04:05", "2/01/2006 15:04:05", "02/1/2006 15:04:05", "2/1/2006 15:04:05", "2/1/2006 03:04:05 PM", "02/01/2006 15:04", "2/1/2006 15:04",
	"2/1/06 15:04", "2/1/2006 03:04 PM", "2/1/2006 3:04 PM", "02/Jan/2006:15:04:05 -0700", "02/01/2006", "2/01/2006", "02/01/06", "2/1/06",
	"2006/01/02 15:04:05.000", "2006/01/02 15:04:05", "2006/01/2 15:04:05", "2006/1/02 15:04:05", "2006/01/02 15:04", "2006/1/2 15:04", "2006/01/02", "2006/1/02",
	"2006-01-02T15:04:05.000-07:00", "2006-01-02T15:04:05.000-0700", "2006-01-02T15:04:05.000Z", "2006-01-02T15:04:05-07:00", "2006-01-02T15:04:05-0700", "2006-01-02T15:04:05Z", "2006-01-02T15:04:05",
	"2006-01-02 15:04:05.000 -0700 MST", "2006-01-02 15:04:05.000 -0700", "2006-01-02 15:04:05.000", "2006-01-02 15:04:05 -07:00", "2006-01-02 15:04:05-07:00", "2006-01-02 15:04:05 -0700 MST", "2006-01-02 15:04:05 -0700",
	"2006-01-02 15:04:05 MST", "2006-01-02 03:04:05 PM", "2006-01-02 15:04:05", "2006-01-02  15:04:05", "2006-01-02 15:04", "2006-01-02", "01.02.2006", "01.02.06",
}

type readRec struct {
	what   string // read, count, snap
	logs   []int
	sel    string
	desc   bool
	start  string
	cond   cond
	limit  int64
	t0, t1 int64
	err    error
	crash  bool
	res    []rrec
	next   string
	total  int64
	count  int64
	walk   int // walks are numbered from 1
	page   int
	strict bool  // errors are not acceptable
	must   int64 // records acknowledged before this tick must be there
	noTime bool
}

type world struct {
	c             *Ctx
	d             *durable
	cfg           srvCfg
	srv           *server
	up            bool
	stop          bool
	logs          []*logState
	apps          []*appRec
	byNo          map[int64]*appRec
	reads         []*readRec
	walks         int
	crashes       int
	disrupt       bool // something happened that makes errors acceptable
	final         bool
	actors        int
	snapN         int
	inc           int
	clockOff      time.Duration
	walkRecs      []*walkRec
	noGlobalOrder bool
	changing      bool // restart in progress
}

func (w *world) par(k string) int { return w.c.p.P[k] }

func fnv64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	return h
}

// payload of the record idx of the append no
func (w *world) payload(no int64, idx, size int) []byte {
	b := make([]byte, size)
	r := sim.NewRng(hashSeed("payload", w.c.p.Seed) ^ uint64(no)<<20 ^ uint64(idx))
	for i := 0; i < size; i += 8 {
		x := r.U64()
		for j := i; j < size && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	if size >= 8 {
		binary.BigEndian.PutUint32(b, uint32(no))
		binary.BigEndian.PutUint32(b[4:], uint32(idx)|0xA5000000)
	}
	return b
}

// sizes of the records of an append
func (w *world) sizes(o Op) []int {
	r := sim.NewRng(hashSeed("sizes", w.c.p.Seed) ^ uint64(o.N)*0x9E3779B97F4A7C15)
	max := w.par("maxSize")*4096 - 56 // the biggest record that fits into an empty chunk
	var s []int
	for i := 0; i < int(o.B); i++ {
		n := 0
		switch o.C {
		case 0:
			n = r.Range(8, 40)
		case 1:
			n = r.Range(40, 400)
		case 2:
			n = r.Range(400, 3000)
		case 3:
			n = max - r.Intn(3)
			if i > 0 {
				n = r.Range(8, 100)
			}
		case 4:
			n = r.Range(0, 12)
			if i == 0 {
				n = 8 + r.Intn(4)
			}
		case 5: // the last one does not fit into any chunk
			n = r.Range(8, 200)
			if i == int(o.B)-1 {
				n = max + 1 + r.Intn(2)
			}
		case 6: // multiples of a block
			n = 4096*r.Range(1, max1(1, w.par("maxSize")/2)) - r.Intn(60)
		}
		if n > max && o.C != 5 {
			n = max
		}
		s = append(s, n)
	}
	return s
}

func max1(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (w *world) fits(n int) bool { return n <= w.par("maxSize")*4096-56 }

// ---- the server life cycle

func (w *world) newCfg() srvCfg {
	newSize := w.par("newSize")
	if v := w.par("newSize2"); v > 0 && w.inc > 0 {
		newSize = v // the operator changed the configuration
	}
	return srvCfg{
		bunt:      w.par("bunt") == 1,
		chunk:     chunkfs.Config{NewSize: int64(newSize) * 4096, MaxChunkSize: int64(w.par("maxSize")) * 4096, MaxGrowIncreaseSize: int64(w.par("growInc")) * 4096},
		maxOpened: w.par("maxOpened"),
		log:       logfs.Config{MaxRecordsLimit: w.par("maxRecs"), MaxBunchSize: w.par("maxBunch"), MaxLocks: w.par("maxLocks")},
		scanner: chunkfs.ScannerConfig{DataPath: dataDir, SweepMaxThresholdSize: int64(w.par("sweepMax")) * 4096, SweepMinThresholdSize: int64(w.par("sweepMin")) * 4096,
			RemoteSyncThreshold: time.Duration(w.par("syncThr")) * time.Millisecond, SyncWorkers: w.par("scanWorkers"),
			GlobalSyncTimeout: time.Duration(w.par("scanPeriod")) * time.Millisecond},
		noScanner: w.par("scanWorkers") == 0,
	}
}

func (w *world) boot() bool {
	w.changing = true
	defer func() { w.changing = false }()
	for i := 0; i < 20; i++ {
		w.cfg = w.newCfg()
		w.inc++
		s := newServer(w.c, fmt.Sprintf("srv%d", w.inc), w.d, w.cfg)
		s.node.OnCrash(func() { w.onCrash(s) })
		if w.clockOff != 0 {
			s.node.StepClock(w.clockOff)
		}
		w.srv = s
		faults := w.c.faults
		if s.start(w.d) {
			w.up = true
			return true
		}
		if s.startErr != nil && !s.node.Dead() {
			// an injected failure made the start fail: the operator tries again
			if !faults {
				w.c.Fail("start", "the server does not start: %v", s.startErr)
				return false
			}
			s.node.OnCrash(func() {})
			sim.Crash(s.node, "start failed")
		}
		sim.Sleep(20 * time.Millisecond)
		if len(w.c.viol) > 0 {
			return false
		}
	}
	w.c.Fail("start", "the server did not start in 20 attempts")
	return false
}

func (w *world) onCrash(s *server) {
	if w.srv == s {
		w.up = false
	}
	w.crashes++
	w.disrupt = true
	w.panics(s)
}

// waitUp waits until a server is there
func (w *world) waitUp() bool {
	for i := 0; i < 200000; i++ {
		if len(w.c.viol) > 0 || w.stop {
			return false
		}
		if w.up && w.srv.up {
			return true
		}
		if len(w.srv.node.Panics) > 0 {
			return false
		}
		sim.Sleep(5 * time.Millisecond)
	}
	w.c.HarnessError("no server for a long time")
	return false
}

// ---- operations

func (w *world) setOf(o Op) []int {
	var s []int
	for i := range w.logs {
		if o.A&(1<<uint(i)) != 0 && w.logs[i].id != "" {
			s = append(s, i)
		}
	}
	return s
}

func (w *world) doCreate(idx int) {
	l := w.logs[idx]
	l.t0 = sim.Tick()
	r, rr := w.srv.createLog(&solaris.Log{Tags: l.tags})
	l.t1 = sim.Tick()
	if rr.err != nil || rr.crashed {
		if !rr.crashed {
			w.opErr("create", rr.err, nil)
		}
		return
	}
	if r != nil {
		l.id = r.ID
	}
}

// opErr judges the error of an operation
func (w *world) opErr(what string, err error, logs []int) {
	if err == nil || w.disrupt || w.srv == nil || w.srv.stopping {
		return
	}
	for _, i := range logs {
		if w.logs[i].delT0 != 0 {
			return
		}
	}
	if w.par("strict") == 1 {
		w.c.Fail("error", "%s fails although nothing was disturbed: %v", what, err)
	}
}

func (w *world) doAppend(o Op) *appRec {
	l := w.logs[int(o.A)]
	if l.id == "" {
		return nil
	}
	a := &appRec{no: o.N, log: int(o.A), sizes: w.sizes(o)}
	w.apps = append(w.apps, a)
	w.byNo[a.no] = a
	rq := &solaris.AppendRecordsRequest{LogID: l.id, ExpandIDs: o.S == "x"}
	for i, n := range a.sizes {
		rq.Records = append(rq.Records, &solaris.Record{Payload: w.payload(a.no, i, n)})
	}
	del := l.delT1 != 0
	if w.c.faults && !w.final {
		// whatever is injected from now on may hit the request
	}
	a.t0 = sim.Tick()
	srv := w.srv
	res, rr := srv.append(rq, time.Duration(o.D)*time.Microsecond)
	a.t1 = sim.Tick()
	if rr.crashed {
		a.unknown = true
		return a
	}
	a.err = rr.err
	if rr.err != nil {
		nofit := len(a.sizes) > 0 && !w.fits(a.sizes[0])
		if o.D == 0 && !nofit {
			w.opErr("append to "+l.id, rr.err, []int{a.log})
		}
		w.c.Probe("append-error")
		return a
	}
	if res == nil {
		w.c.Fail("append-result", "an append returned neither a result nor an error")
		return a
	}
	if del {
		w.c.Fail("append-deleted", "an append to the log %s was acknowledged (%d records), but its deletion was acknowledged before it began", l.id, res.Added)
	}
	a.acked, a.added, a.ids = true, int(res.Added), res.RecordIDs
	if a.added > len(a.sizes) || a.added < 0 {
		w.c.Fail("append-result", "an append of %d records reports %d added", len(a.sizes), a.added)
		a.added = len(a.sizes)
	}
	if rq.ExpandIDs {
		if len(a.ids) != a.added {
			w.c.Fail("append-result", "an append reports %d added records and %d IDs", a.added, len(a.ids))
		}
		for _, id := range a.ids {
			l.known = append(l.known, id)
		}
	}
	want := 0
	for want < len(a.sizes) && w.fits(a.sizes[want]) {
		want++
	}
	if a.added != want && !w.disrupt && w.par("strict") == 1 && o.D == 0 && l.delT0 == 0 {
		w.c.Fail("append-short", "an append of %d records (sizes %v) to %s added only %d although nothing was disturbed", len(a.sizes), clip(fmt.Sprint(a.sizes), 200), l.id, a.added)
	}
	w.c.Probe("append-ack")
	return a
}

func parseMS(id string) int64 {
	u, err := ulid.Parse(id)
	if err != nil {
		return -1
	}
	return int64(u.Time())
}

func msTime(ms int64) string { return time.UnixMilli(ms).UTC().Format(time.RFC3339Nano) }

func (q cond) String() string {
	a, b := msTime(q.a), msTime(q.b)
	switch q.kind {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("ctime >= '%s'", a)
	case 2:
		return fmt.Sprintf("ctime < '%s'", a)
	case 3:
		return fmt.Sprintf("ctime > '%s' and ctime <= '%s'", a, b)
	case 4:
		return fmt.Sprintf("ctime != '%s'", a)
	case 5:
		return fmt.Sprintf("ctime < '%s' or ctime > '%s'", a, b)
	case 6:
		return fmt.Sprintf("ctime = '%s'", a)
	case 7:
		return fmt.Sprintf("ctime > '%s' and ctime < '%s'", b, a)
	case 8:
		return fmt.Sprintf("ctime >= '%s' and ctime <= '%s' and ctime != '%s'", a, b, msTime((q.a+q.b)/2))
	case 9:
		return q.ex.String()
	case 10:
		return "  "
	case 11:
		return q.bad
	}
	return ""
}

func (q cond) match(ms int64) bool {
	switch q.kind {
	case 1:
		return ms >= q.a
	case 2:
		return ms < q.a
	case 3:
		return ms > q.a && ms <= q.b
	case 4:
		return ms != q.a
	case 5:
		return ms < q.a || ms > q.b
	case 6:
		return ms == q.a
	case 7:
		return ms > q.b && ms < q.a
	case 8:
		return ms >= q.a && ms <= q.b && ms != (q.a+q.b)/2
	case 9:
		return q.ex.match(ms * 1e6)
	}
	return true
}

// pickID chooses a start ID; r decides
func (w *world) pickID(logs []int, mode int64, r *sim.Rng) string {
	known := func() string {
		if len(logs) == 0 {
			return ""
		}
		for k := 0; k < 4; k++ {
			l := w.logs[logs[r.Intn(len(logs))]]
			if len(l.known) > 0 {
				return l.known[r.Intn(len(l.known))]
			}
		}
		return ""
	}
	switch mode {
	case 1, 2:
		return known()
	case 3:
		id := known()
		if id == "" {
			return ""
		}
		u, _ := ulid.Parse(id)
		if r.Pct(50) {
			for i := 15; i >= 0; i-- {
				u[i]++
				if u[i] != 0 {
					break
				}
			}
		} else {
			for i := 15; i >= 0; i-- {
				u[i]--
				if u[i] != 255 {
					break
				}
			}
		}
		return u.String()
	case 4:
		var u ulid.ULID
		ms := sim.WallOf(w.srv.node).UnixMilli()
		if id := known(); id != "" {
			ms = parseMS(id)
		}
		_ = u.SetTime(uint64(ms + int64(r.Intn(5)) - 2))
		for i := 6; i < 16; i++ {
			u[i] = byte(r.U64())
		}
		return u.String()
	case 5:
		return sim.Pick(r, "00000000000000000000000000", "7ZZZZZZZZZZZZZZZZZZZZZZZZZ")
	}
	return ""
}

func (w *world) pickCond(logs []int, kind int64, r *sim.Rng) cond {
	q := cond{kind: int(kind)}
	if kind == 0 {
		return q
	}
	t := func() int64 {
		if id := w.pickID(logs, 1, r); id != "" {
			return parseMS(id) + int64(sim.Pick(r, 0, 0, 0, 1, -1, 3))
		}
		return sim.WallOf(w.srv.node).UnixMilli() - int64(r.Intn(50))
	}
	if q.kind == 9 {
		q.ex = pickExpr(3, t, r)
		return q
	}
	if q.kind == 11 {
		q.bad = badConds[r.Intn(len(badConds))]
		return q
	}
	q.a, q.b = t(), t()
	if q.a > q.b {
		q.a, q.b = q.b, q.a
	}
	return q
}

func (w *world) request(rr *readRec) *solaris.QueryRecordsRequest {
	rq := &solaris.QueryRecordsRequest{Condition: rr.cond.String(), Descending: rr.desc, StartRecordID: rr.start, Limit: rr.limit}
	switch rr.sel {
	case "tag":
		rq.LogsCondition = fmt.Sprintf("tag(\"grp\") = \"g%d\"", w.logs[rr.logs[0]].idx%2)
	case "idc":
		var s []string
		for _, i := range rr.logs {
			s = append(s, fmt.Sprintf("logID = '%s'", w.logs[i].id))
		}
		rq.LogsCondition = strings.Join(s, " or ")
	default:
		for _, i := range rr.logs {
			rq.LogIDs = append(rq.LogIDs, w.logs[i].id)
		}
	}
	return rq
}

// query executes one page
func (w *world) query(srv *server, rr *readRec, cancel time.Duration) {
	rr.t0 = sim.Tick()
	if rr.must == 0 {
		rr.must = rr.t0
	}
	var sc int64
	for _, i := range rr.logs {
		if w.logs[i].delT0 != 0 {
			sc++
		}
	}
	dis := w.disrupt
	total := int64(-1)
	if rr.what == "count" {
		res, r := srv.count(w.request(rr), cancel)
		rr.t1 = sim.Tick()
		rr.err, rr.crash = r.err, r.crashed
		if res != nil {
			rr.total, rr.count = res.Total, res.Count
		}
		if rr.err == nil && !rr.crash && res == nil {
			w.c.Fail("result", "a count request returned neither a result nor an error")
		}
	} else {
		res, r := srv.query(w.request(rr), cancel)
		rr.t1 = sim.Tick()
		if r.rest {
			total = r.total
		}
		rr.err, rr.crash = r.err, r.crashed
		if rr.err == nil && !rr.crash {
			if res == nil {
				w.c.Fail("result", "a query returned neither a result nor an error")
				rr.crash = true
			} else {
				rr.next = res.NextPageID
				prev := ""
				for _, x := range res.Records {
					lid := x.LogID
					if lid == "" {
						lid = prev
					}
					prev = lid
					e := rrec{id: x.ID, log: lid, hash: fnv64(x.Payload), n: len(x.Payload)}
					copy(e.head[:], x.Payload)
					if x.CreatedAt != nil {
						e.created = x.CreatedAt.AsTime().UnixMilli()
					}
					rr.res = append(rr.res, e)
				}
			}
		}
	}
	if rr.err == nil && !rr.crash {
		w.c.Probe(rr.what + "-ok")
		for _, i := range rr.logs {
			l := w.logs[i]
			if l.delT1 != 0 && l.delT1 < rr.t0 && rr.sel == "ids" && (rr.what == "count" || rr.limit > 0) {
				w.c.Fail("read-deleted", "a %s request for the log %s succeeded although its deletion was acknowledged before it began", rr.what, l.id)
			}
		}
		for _, e := range rr.res {
			for _, i := range rr.logs {
				if l := w.logs[i]; l.id == e.log && len(l.known) < 300 {
					l.known = append(l.known, e.id)
				}
			}
		}
	} else if !rr.crash && cancel == 0 && !dis && !w.disrupt {
		logs := rr.logs
		if rr.sel == "tag" {
			// the condition may have selected a log created meanwhile
			logs = nil
			for i, l := range w.logs {
				if l.idx%2 == w.logs[rr.logs[0]].idx%2 {
					logs = append(logs, i)
				}
			}
		}
		w.opErr(rr.what, rr.err, logs)
	}
	if rr.crash || rr.err != nil {
		w.c.Probe(rr.what + "-err")
	}
	w.reads = append(w.reads, rr)
	if total >= 0 && rr.err == nil && !rr.crash {
		// the answer has the number of all matching records as well
		cr := *rr
		cr.what, cr.res, cr.next, cr.count, cr.total = "count", nil, "", total, -1
		w.reads = append(w.reads, &cr)
	}
}

// doRead executes a read, walk or count operation. It returns the error of it
func (w *world) doRead(srv *server, o Op, attempts int) error {
	logs := w.setOf(o)
	if len(logs) == 0 {
		return nil
	}
	r := sim.NewRng(hashSeed("read", w.c.p.Seed) ^ uint64(o.N)*0x9E3779B97F4A7C15)
	desc := o.C&1 == 1
	mode := (o.C >> 1) & 7
	kind := (o.C >> 4) & 15
	sel := o.S
	if sel == "" {
		sel = "ids"
	}
	if sel == "tag" {
		// the group of the first log
		g := w.logs[logs[0]].idx % 2
		logs = nil
		for i, l := range w.logs {
			if i%2 == g && l.id != "" {
				logs = append(logs, i)
			}
		}
	}
	start := w.pickID(logs, mode, r)
	q := w.pickCond(logs, kind, r)
	base := readRec{what: "read", logs: logs, sel: sel, desc: desc, start: start, cond: q, limit: o.B}
	if kind == 11 {
		w.badRead(srv, &base, o)
		return nil
	}
	if o.K == "count" {
		base.what = "count"
		rr := base
		for k := 0; ; k++ {
			rr = base
			w.query(srv, &rr, time.Duration(o.D)*time.Microsecond)
			if rr.err == nil || rr.crash || k >= attempts || !srv.up {
				break
			}
			w.calm(attempts, k)
			sim.Sleep(time.Duration(5+50*min(k, 6))*time.Millisecond + time.Duration((k+1)*7919%31000)*time.Microsecond)
		}
		w.d.disk.NoList = false
		return rr.err
	}
	if o.K == "read" {
		rr := base
		w.query(srv, &rr, time.Duration(o.D)*time.Microsecond)
		return rr.err
	}
	_, err := w.walk(srv, base, attempts, time.Duration(o.D)*time.Microsecond)
	return err
}

// badRead sends a request with a condition that is not acceptable
func (w *world) badRead(srv *server, rr *readRec, o Op) {
	var n, total int64
	var r rpcRes
	if o.K == "count" {
		var res *solaris.CountResult
		res, r = srv.count(w.request(rr), time.Duration(o.D)*time.Microsecond)
		if res != nil {
			n, total = res.Count, res.Total
		}
	} else {
		var res *solaris.QueryRecordsResult
		res, r = srv.query(w.request(rr), time.Duration(o.D)*time.Microsecond)
		if res != nil {
			n = int64(len(res.Records))
		}
	}
	if r.err != nil || r.crashed {
		w.c.Probe("cond-refused")
		return
	}
	if n+total > 0 {
		w.c.Fail("cond-accepted", "the request %s has a condition that is not acceptable, but it was answered with %d records (total %d)", rr.describe(w), n, total)
	}
}

// walk follows the page tokens
func (w *world) walk(srv *server, base readRec, attempts int, cancel time.Duration) ([]rrec, error) {
	w.walks++
	id := w.walks
	var all []rrec
	must := sim.Tick()
	start := base.start
	limitPages := 0
	for page := 0; ; page++ {
		var rr *readRec
		for k := 0; ; k++ {
			x := base
			rr = &x
			rr.start, rr.walk, rr.page = start, id, page
			w.query(srv, rr, cancel)
			if rr.err == nil && !rr.crash {
				break
			}
			if rr.crash || k >= attempts || !srv.up {
				return all, fmt.Errorf("page %d: %w", page, orDown(rr.err))
			}
			// the chunks of an idle log may be removed locally all the time, so do not stay in step with the scanner
			w.calm(attempts, k)
			sim.Sleep(time.Duration(5+40*min(k*k, 16))*time.Millisecond + time.Duration((id*7919+k*104729)%31000)*time.Microsecond)
			if len(w.c.viol) > 0 {
				return all, errDown
			}
		}
		w.d.disk.NoList = false
		all = append(all, rr.res...)
		if rr.next == "" {
			break
		}
		start = rr.next
		// there cannot be more pages than submitted records plus a few
		sub := 0
		for _, a := range w.apps {
			sub += len(a.sizes)
		}
		limitPages = sub + 20
		if page > limitPages {
			w.c.Fail("endless-paging", "%d pages of %s were read but the end is not reached; the next token is %s", page, base.describe(w), start)
			break
		}
	}
	w.checkWalk(&base, all, must, id)
	return all, nil
}

func orDown(err error) error {
	if err == nil {
		return errDown
	}
	return err
}

func (r *readRec) describe(w *world) string {
	var ids []string
	for _, i := range r.logs {
		ids = append(ids, w.logs[i].id)
	}
	return fmt.Sprintf("%s logs=%v by=%s desc=%v start=%q cond=%q limit=%d", r.what, ids, r.sel, r.desc, r.start, r.cond.String(), r.limit)
}

type walkRec struct {
	base readRec
	all  []rrec
	must int64
	id   int
}

// checkWalk: a record appears at most once and in order over all pages; completeness is judged per page at the end
func (w *world) checkWalk(base *readRec, all []rrec, must int64, id int) {
	w.c.Probe("walk")
	for i := 1; i < len(all); i++ {
		if all[i].id == all[i-1].id {
			w.c.Fail("page-dup", "the record %s is returned twice by the pages of %s", all[i].id, base.describe(w))
			return
		}
		if all[i].id < all[i-1].id != base.desc {
			w.c.Fail("page-order", "the pages of %s are not in order: %s after %s", base.describe(w), all[i].id, all[i-1].id)
			return
		}
	}
	w.walkRecs = append(w.walkRecs, &walkRec{*base, all, must, id})
}

// ---- judging

// decompose splits the final contents of a log into blocks of appends
func (w *world) decompose(l *logState, all []rrec) {
	l.finalIdx = map[string]int{}
	var cur *appRec
	idx := 0
	prev := ""
	var prevApp *appRec
	for _, e := range all {
		if e.id <= prev {
			w.c.Fail("order", "log %s: record ID %s follows %s", l.id, e.id, prev)
			return
		}
		if len(e.id) != 26 {
			w.c.Fail("record-id", "log %s: bad record ID %q", l.id, e.id)
			return
		}
		prev = e.id
		if e.log != l.id {
			w.c.Fail("log-id", "a record of the log %s is reported with the log ID %q", l.id, e.log)
			return
		}
		var a *appRec
		k := -1
		if e.n >= 8 {
			no := int64(binary.BigEndian.Uint32(e.head[:]))
			x := binary.BigEndian.Uint32(e.head[4:])
			a = w.byNo[no]
			k = int(x & 0xFFFFFF)
			if a == nil || x>>24 != 0xA5 || k >= len(a.sizes) {
				w.c.Fail("corrupt", "log %s: the record %s (%d bytes) was never submitted", l.id, e.id, e.n)
				return
			}
		} else {
			a, k = cur, idx
			if a == nil || k >= len(a.sizes) {
				w.c.Fail("corrupt", "log %s: the record %s (%d bytes) was never submitted at this place", l.id, e.id, e.n)
				return
			}
		}
		if a.sizes[k] != e.n || fnv64(w.payload(a.no, k, e.n)) != e.hash {
			w.c.Fail("corrupt", "log %s: the payload of the record %s (append %d, record %d) has %d bytes and is not what was submitted (%d bytes)", l.id, e.id, a.no, k, e.n, a.sizes[k])
			return
		}
		if w.logs[a.log] != l {
			w.c.Fail("wrong-log", "the record %s of the append %d to the log %s is found in the log %s", e.id, a.no, w.logs[a.log].id, l.id)
			return
		}
		if a != cur {
			if k != 0 {
				w.c.Fail("prefix", "log %s: the record %d of the append %d is there, but not the one before it", l.id, k, a.no)
				return
			}
			if a.stored > 0 {
				w.c.Fail("duplicate", "log %s: the records of the append %d are there twice or with others in between", l.id, a.no)
				return
			}
			prevApp, cur = cur, a
			idx = 0
			a.first = e.id
			if prevApp != nil && a.acked && a.t1 < prevApp.t0 {
				w.c.Fail("order", "log %s: the append %d was acknowledged before the append %d began but its records are behind", l.id, a.no, prevApp.no)
			}
		}
		if k != idx {
			w.c.Fail("prefix", "log %s: the record %d of the append %d follows the record %d", l.id, k, a.no, idx-1)
			return
		}
		if a.acked && k >= a.added {
			w.c.Fail("extra", "log %s: the append %d reported %d records but there are more", l.id, a.no, a.added)
			return
		}
		if a.acked && a.ids != nil && k < len(a.ids) && a.ids[k] != e.id {
			w.c.Fail("record-id", "log %s: the record %d of the append %d was acknowledged as %s and is found as %s", l.id, k, a.no, a.ids[k], e.id)
			return
		}
		if a.err != nil && w.par("strict") == 1 && !w.disrupt {
			w.c.Fail("extra", "log %s: the append %d failed (%v) but its record %d is there", l.id, a.no, a.err, k)
			return
		}
		idx++
		a.stored = idx
		a.last = e.id
		l.finalIdx[e.id] = len(l.final)
		l.final = append(l.final, frec{id: e.id, log: l.idx, app: a, idx: k, hash: e.hash, created: e.created})
		if ms := parseMS(e.id); ms != e.created {
			w.c.Fail("created-at", "log %s: the record %s is reported as created at %s", l.id, e.id, msTime(e.created))
			return
		}
	}
}

func (w *world) judge() {
	for _, a := range w.apps {
		sim.Notef("append %d log %s: %d records, t0=%d t1=%d acked=%v added=%d err=%v; stored %d: %s - %s", a.no, w.logs[a.log].id, len(a.sizes), a.t0, a.t1, a.acked, a.added, a.err, a.stored, a.first, a.last)
	}
	for _, r := range w.reads {
		if r.sel == "tag" {
			// logs of the group that were created in the meantime
			r.logs = append([]int(nil), r.logs...)
			for i, l := range w.logs {
				if l.idx%2 == w.logs[r.logs[0]].idx%2 && l.id != "" && l.t0 < r.t1 && !inInts(i, r.logs) {
					r.logs = append(r.logs, i)
				}
			}
		}
		sim.Notef("%s: t0=%d t1=%d must=%d: %d records, next=%q count=%d total=%d err=%v crash=%v", r.describe(w), r.t0, r.t1, r.must, len(r.res), r.next, r.count, r.total, r.err, r.crash)
	}
	c := w.c
	if len(c.viol) > 0 {
		return
	}
	// nothing acknowledged is missing
	for _, a := range w.apps {
		l := w.logs[a.log]
		if l.delT0 != 0 || l.finalIdx == nil {
			continue
		}
		if a.acked && a.stored != a.added {
			c.Fail("lost", "log %s: the append %d was acknowledged with %d records (sizes %v) but %d are readable in the end (of %d in the log)", l.id, a.no, a.added, clip(fmt.Sprint(a.sizes), 100), a.stored, len(l.final))
			return
		}
	}
	// global uniqueness and real-time order of IDs
	seen := map[string]*appRec{}
	var acked []*appRec
	for _, l := range w.logs {
		for _, f := range l.final {
			if seen[f.id] != nil {
				c.Fail("unique", "the record ID %s is used twice", f.id)
				return
			}
			seen[f.id] = f.app
		}
	}
	for _, a := range w.apps {
		if a.stored > 0 {
			acked = append(acked, a)
		}
	}
	sort.SliceStable(acked, func(i, j int) bool { return acked[i].t1 < acked[j].t1 })
	byStart := append([]*appRec(nil), acked...)
	sort.SliceStable(byStart, func(i, j int) bool { return byStart[i].t0 < byStart[j].t0 })
	k := 0
	var maxA *appRec
	if !w.noGlobalOrder {
		for _, b := range byStart {
			for k < len(acked) && acked[k].t1 < b.t0 {
				if acked[k].acked && (maxA == nil || acked[k].last > maxA.last) {
					maxA = acked[k]
				}
				k++
			}
			if maxA != nil && maxA.last >= b.first {
				c.Fail("real-time", "the append %d (log %s) was acknowledged before the append %d (log %s) began, but its last ID %s is not smaller than %s", maxA.no, w.logs[maxA.log].id, b.no, w.logs[b.log].id, maxA.last, b.first)
				return
			}
		}
	}
	for _, r := range w.reads {
		if r.err != nil || r.crash {
			continue
		}
		w.judgeRead(r)
		if len(c.viol) > 0 {
			return
		}
	}
	for _, wr := range w.walkRecs {
		w.judgeWalk(wr)
		if len(c.viol) > 0 {
			return
		}
	}
}

// matching returns the final records the request denotes, in its order
func (w *world) matching(r *readRec) ([]*frec, bool) {
	var m []*frec
	for _, i := range r.logs {
		l := w.logs[i]
		if l.delT0 != 0 || l.finalIdx == nil {
			return nil, false
		}
		for j := range l.final {
			f := &l.final[j]
			if r.cond.match(f.created) && (r.start == "" || r.desc && f.id <= r.start || !r.desc && f.id >= r.start) {
				m = append(m, f)
			}
		}
	}
	sort.Slice(m, func(i, j int) bool {
		if r.desc {
			return m[i].id > m[j].id
		}
		return m[i].id < m[j].id
	})
	return m, true
}

func (f *frec) mustBy(t int64) bool { return f.app.acked && f.app.t1 < t }

func (w *world) judgeRead(r *readRec) {
	c := w.c
	m, ok := w.matching(r)
	if !ok {
		w.judgeLoose(r)
		return
	}
	if r.what == "count" {
		lo, hi, tlo, thi := int64(0), int64(0), int64(0), int64(0)
		for _, f := range m {
			if f.mustBy(r.must) {
				lo++
			}
			if f.app.t0 < r.t1 {
				hi++
			}
		}
		for _, i := range r.logs {
			for _, a := range w.apps {
				if a.log != i || a.t0 > r.t1 {
					continue
				}
				n := int64(a.stored)
				if a.acked && a.t1 < r.must {
					tlo += n
				}
				thi += n
				if !a.acked && w.disrupt {
					// records of an append that was cut off by a crash may be in the chunk but not in the metadata,
					// so that some reads see them and others do not
					hi += int64(len(a.sizes) - a.stored)
					thi += int64(len(a.sizes) - a.stored)
				}
			}
		}
		if r.count < lo || r.count > hi {
			c.Fail("count", "%s reports count=%d, but between %d and %d records match", r.describe(w), r.count, lo, hi)
		} else if r.total >= 0 && (r.total < tlo || r.total > thi) {
			c.Fail("total", "%s reports total=%d, but the logs have between %d and %d records", r.describe(w), r.total, tlo, thi)
		}
		return
	}
	if r.limit > 0 && int64(len(r.res)) > r.limit {
		c.Fail("limit", "%s returned %d records", r.describe(w), len(r.res))
		return
	}
	pos := map[string]*frec{}
	for _, f := range m {
		pos[f.id] = f
	}
	got := map[string]bool{}
	for i, e := range r.res {
		if i > 0 && (r.res[i-1].id == e.id || (e.id < r.res[i-1].id) != r.desc) {
			c.Fail("order", "%s returns %s after %s", r.describe(w), e.id, r.res[i-1].id)
			return
		}
		got[e.id] = true
		f := pos[e.id]
		if f == nil {
			w.judgeForeign(r, e)
			if len(c.viol) > 0 {
				return
			}
			continue
		}
		if e.hash != f.hash || e.created != f.created {
			c.Fail("corrupt", "%s returns the record %s with a payload of %d bytes that is not what was submitted", r.describe(w), e.id, e.n)
			return
		}
		if e.log != w.logs[f.log].id {
			c.Fail("log-id", "%s returns the record %s of the log %s with the log ID %q", r.describe(w), e.id, w.logs[f.log].id, e.log)
			return
		}
		if f.app.t0 > r.t1 {
			c.Fail("future", "%s returns the record %s before it was submitted", r.describe(w), e.id)
			return
		}
	}
	if r.limit <= 0 {
		return
	}
	last := ""
	if len(r.res) > 0 {
		last = r.res[len(r.res)-1].id
	}
	for _, f := range m {
		if !f.mustBy(r.must) || got[f.id] {
			continue
		}
		beyond := r.next != "" && (last == "" || (!r.desc && f.id > last) || (r.desc && f.id < last))
		if beyond {
			// it must be reachable with the page token
			if !r.desc && r.next > f.id || r.desc && r.next < f.id {
				c.Fail("page-skip", "%s returned %d records up to %q and the token %s, which skips the acknowledged record %s", r.describe(w), len(r.res), last, r.next, f.id)
				return
			}
			continue
		}
		c.Fail("missing", "%s does not return the record %s (append %d, record %d) that was acknowledged before; it returned %d records up to %q, token %q", r.describe(w), f.id, f.app.no, f.idx, len(r.res), last, r.next)
		return
	}
}

// judgeForeign: a returned record that is not expected
func (w *world) judgeForeign(r *readRec, e rrec) {
	c := w.c
	for _, l := range w.logs {
		if i, ok := l.finalIdx[e.id]; ok {
			f := l.final[i]
			if !inInts(l.idx, r.logs) {
				c.Fail("wrong-log", "%s returns the record %s of the log %s", r.describe(w), e.id, l.id)
			} else if !r.cond.match(f.created) {
				c.Fail("condition", "%s returns the record %s created at %s, which does not match", r.describe(w), e.id, msTime(f.created))
			} else {
				c.Fail("start", "%s returns the record %s, which is before the start", r.describe(w), e.id)
			}
			return
		}
	}
	// not in the final contents: a record of an append that was never acknowledged may disappear in a crash
	if e.n >= 8 {
		a := w.byNo[int64(binary.BigEndian.Uint32(e.head[:]))]
		k := int(binary.BigEndian.Uint32(e.head[4:]) & 0xFFFFFF)
		if a != nil && k < len(a.sizes) && fnv64(w.payload(a.no, k, a.sizes[k])) == e.hash {
			if !a.acked && w.disrupt {
				c.Probe("unacked-vanished")
				return
			}
			c.Fail("lost", "%s returned the record %s (append %d, record %d), which is gone in the end", r.describe(w), e.id, a.no, k)
			return
		}
		c.Fail("corrupt", "%s returns the record %s of %d bytes that was never submitted", r.describe(w), e.id, e.n)
		return
	}
	if !w.disrupt {
		c.Fail("corrupt", "%s returns the record %s of %d bytes that is not in the log in the end", r.describe(w), e.id, e.n)
	}
}

// judgeLoose: reads of logs whose final contents are unknown (deleted logs)
func (w *world) judgeLoose(r *readRec) {
	if r.what == "count" {
		return
	}
	for i, e := range r.res {
		if i > 0 && (r.res[i-1].id == e.id || (e.id < r.res[i-1].id) != r.desc) {
			w.c.Fail("order", "%s returns %s after %s", r.describe(w), e.id, r.res[i-1].id)
			return
		}
		if e.n >= 8 {
			a := w.byNo[int64(binary.BigEndian.Uint32(e.head[:]))]
			k := int(binary.BigEndian.Uint32(e.head[4:]) & 0xFFFFFF)
			if a == nil || k >= len(a.sizes) || fnv64(w.payload(a.no, k, a.sizes[k])) != e.hash {
				w.c.Fail("corrupt", "%s returns the record %s of %d bytes that was never submitted", r.describe(w), e.id, e.n)
				return
			}
			if w.logs[a.log].id != e.log || !inInts(a.log, r.logs) {
				w.c.Fail("wrong-log", "%s returns a record of the log %s as one of %s", r.describe(w), w.logs[a.log].id, e.log)
				return
			}
		}
	}
	// the logs that are still there must be complete, if the result is the only page
	if r.next != "" || r.limit <= 0 || r.sel == "ids" {
		return
	}
	got := map[string]bool{}
	for _, e := range r.res {
		got[e.id] = true
	}
	for _, i := range r.logs {
		l := w.logs[i]
		if l.delT0 != 0 || l.finalIdx == nil {
			continue
		}
		q := *r
		q.logs = []int{i}
		m, _ := w.matching(&q)
		for _, f := range m {
			if f.mustBy(r.must) && !got[f.id] {
				w.c.Fail("missing", "%s does not return the record %s that was acknowledged before", r.describe(w), f.id)
				return
			}
		}
	}
}

func (w *world) judgeWalk(wr *walkRec) {
	m, ok := w.matching(&wr.base)
	if !ok || wr.base.limit <= 0 {
		return
	}
	got := map[string]bool{}
	for _, e := range wr.all {
		got[e.id] = true
	}
	for _, f := range m {
		if f.mustBy(wr.must) && !got[f.id] {
			w.c.Fail("page-missing", "no page of %s holds the record %s (append %d, record %d) that was acknowledged before; the pages hold %d records", wr.base.describe(w), f.id, f.app.no, f.idx, len(wr.all))
			return
		}
	}
}

func inInts(x int, l []int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// ---- the run

func (w *world) step(o Op) {
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.A) * time.Microsecond)
	case "app":
		w.doAppend(o)
	case "read", "walk", "count":
		att := 0
		if w.final {
			att = w.patience()
		}
		err := w.doRead(w.srv, o, att)
		if w.final && err != nil && w.srv.up {
			w.finalErr(o, err)
		}
	case "create":
		if w.logs[o.A].id == "" && w.logs[o.A].t0 == 0 {
			w.doCreate(int(o.A))
		}
	case "del":
		w.doDelete(o)
	}
}

func (w *world) finalErr(o Op, err error) {
	logs := w.setOf(o)
	for _, i := range logs {
		if w.logs[i].delT0 != 0 {
			return
		}
	}
	if o.S == "tag" {
		return
	}
	w.c.Fail("unreadable", "after everything was repaired a %s request keeps failing: %v", o.K, err)
}

func (w *world) doDelete(o Op) {
	l := w.logs[int(o.A)]
	if l.id == "" {
		return
	}
	already := l.delT1 != 0
	if l.delT0 == 0 {
		l.delT0 = sim.Tick()
	}
	res, rr := w.srv.deleteLogs(fmt.Sprintf("logID = '%s'", l.id))
	if rr.crashed || rr.err != nil {
		if !rr.crashed && !already {
			w.c.Probe("delete-err")
		}
		return
	}
	if res == nil {
		w.c.Fail("result", "a deletion returned neither a result nor an error")
		return
	}
	if len(res.DeletedIDs) > 1 {
		w.c.Fail("delete-other", "the deletion of %s reports %d deleted logs", l.id, len(res.DeletedIDs))
	}
	for _, id := range res.DeletedIDs {
		if id == "" {
			id = l.id // the number of logs only is reported
		}
		if id != l.id {
			w.c.Fail("delete-other", "the deletion of %s reports %s", l.id, id)
		}
		if already {
			w.c.Fail("delete-twice", "the log %s is reported as deleted twice", l.id)
		}
		if l.delT1 == 0 {
			l.delT1 = sim.Tick()
		}
	}
	w.c.Probe("delete")
}

func (w *world) chaos(o Op) {
	switch o.K {
	case "sleep":
		sim.Sleep(time.Duration(o.A) * time.Microsecond)
	case "crash":
		// A: 0 - now, 1 - after B steps, 2 - at the B-th file operation with mode C. D - downtime in ms
		n := w.srv.node
		if n.Dead() {
			break
		}
		switch o.A {
		case 0:
			sim.Crash(n, "chaos")
		case 1:
			n.ArmCrash(o.B)
		case 2:
			n.FSCrashAt, n.FSCrashMode = n.FSOps+o.B, int(o.C)
		}
		for i := 0; i < 400 && !n.Dead() && !w.stop; i++ {
			sim.Sleep(2 * time.Millisecond)
		}
		n.Disarm()
		if n.Dead() || !w.up {
			sim.Sleep(time.Duration(o.D+3) * time.Millisecond)
			w.boot()
		}
	case "restart":
		w.restart()
	case "clock":
		w.clockOff += time.Duration(o.A) * time.Millisecond
		w.srv.node.StepClock(time.Duration(o.A) * time.Millisecond)
		w.c.Probe("clock-step")
	case "stall":
		w.srv.node.Stall(time.Duration(o.A) * time.Microsecond)
	case "rdown":
		w.d.remote.down = true
		w.disrupt = true
		sim.Count("fault:remote.down")
		sim.Sleep(time.Duration(o.A) * time.Millisecond)
		w.d.remote.down = false
	case "snap":
		w.snapshot(false)
	}
}

// restart is an orderly stop and start
func (w *world) restart() {
	if !w.srv.up || w.srv.node.Dead() {
		return
	}
	w.disrupt = true
	old := w.srv
	w.up = false
	if !old.shutdown(5 * time.Minute) {
		w.c.Fail("shutdown-hang", "the shutdown does not end: %v", clip(fmt.Sprint(sim.Blocked(old.node)), 1000))
		return
	}
	if w.checkLeftovers(old) {
		sim.Crash(old.node, "stopped")
	}
	w.boot()
}

// checkLeftovers: after the shutdown the tasks of the server must end soon
func (w *world) checkLeftovers(s *server) bool {
	if s.node.Dead() {
		w.panics(s)
		return false
	}
	limit := 2*w.cfg.scanner.GlobalSyncTimeout + 40*time.Second
	for t := time.Duration(0); ; t += 100 * time.Millisecond {
		if s.node.Dead() {
			w.panics(s)
			return false
		}
		n := sim.Alive(s.node)
		if n == 0 {
			if l := w.d.disk.Held(s.node); len(l) > 0 {
				w.c.Fail("file-leak", "after the shutdown, when all tasks are gone, files are still open or mapped: %v", clip(fmt.Sprint(l), 1000))
			}
			return true
		}
		if s.db != nil && (n <= 2 || t > limit-time.Second) {
			s.db.Close() // the end of the process: database/sql keeps two tasks till then
			s.db = nil
		}
		if t > limit {
			w.c.Fail("leak", "%v after the shutdown tasks are still alive: %v", limit, clip(fmt.Sprint(sim.AliveList(s.node)), 1000))
			return true
		}
		sim.Sleep(100 * time.Millisecond)
	}
}

func (w *world) panics(s *server) bool {
	if s.panicSeen {
		return true
	}
	for _, p := range s.node.Panics {
		s.panicSeen = true
		w.c.Fail("panic", "the server process panics in %s: %s\n%s", p.Task, p.Value, clip(p.Stack, 1000))
		return true
	}
	return false
}

// snapshot starts a second server on a copy of everything durable and reads all logs there: what was acknowledged
// before must be found. With empty the local chunk directory is lost and only the remote copies are there.
func (w *world) snapshot(empty bool) {
	t := sim.Tick()
	w.snapN++
	name := fmt.Sprintf("snap%d", w.snapN)
	d := &durable{disk: w.d.disk.Clone(name), sql: w.d.sql.clone(), pg: w.d.pg.clone(), remote: w.d.remote.clone()}
	if empty {
		for _, p := range d.disk.Paths() {
			if strings.HasPrefix(p, dataDir+"/") && len(p) > len(dataDir)+4 {
				d.disk.Delete(p)
			}
		}
	}
	cfg := w.cfg
	cfg.noScanner = true
	cfg.maxOpened, cfg.log.MaxLocks = 100, 100
	s := newServer(w.c, name, d, cfg)
	s.node.NoFaults = true
	if !s.start(d) {
		if s.node.Dead() {
			w.c.Fail("snap-start", "a server started on a copy of the durable state dies: %v", clip(fmt.Sprint(s.node.Panics), 800))
		} else {
			w.c.Fail("snap-start", "a server started on a copy of the durable state fails: %v", s.startErr)
		}
		return
	}
	w.c.Probe("snapshot")
	for i, l := range w.logs {
		if l.id == "" || l.t1 > t || l.delT0 != 0 {
			continue
		}
		base := readRec{what: "read", logs: []int{i}, sel: "ids", limit: 1000, must: t, noTime: true}
		w.walks++
		start := ""
		for page := 0; page < 10000; page++ {
			rr := base
			rr.start, rr.walk, rr.page = start, w.walks, page
			dis := w.disrupt
			w.disrupt = true
			w.query(s, &rr, 0)
			w.disrupt = dis
			if rr.err != nil || rr.crash {
				if l.delT0 != 0 {
					break
				}
				what := "the durable state (local files and remote copies)"
				if empty {
					what = "the remote copies alone"
				}
				n := 0
				for _, a := range w.apps {
					if a.log == i && a.acked && a.t1 < t {
						n += a.added
					}
				}
				if n == 0 {
					break
				}
				w.c.Fail("snap-unreadable", "the log %s with %d acknowledged records cannot be read from %s: %v %v", l.id, n, what, rr.err, clip(fmt.Sprint(s.node.Panics), 500))
				sim.Crash(s.node, "snapshot done")
				return
			}
			if rr.next == "" {
				break
			}
			start = rr.next
		}
	}
	s.up = false
	sim.Crash(s.node, "snapshot done")
}

func runLog(c *Ctx) {
	w := &world{c: c, byNo: map[int64]*appRec{}}
	p := c.p
	w.cfg = w.newCfg()
	disk := sos.NewDisk("disk")
	disk.Reliable = []string{"/data/meta"}
	disk.Mkdirs("/data/meta")
	disk.Mkdirs(dataDir)
	w.d = &durable{disk: disk, sql: newSQL(), pg: newPG(c), remote: newRemote()}
	for i := 0; i < w.par("nlogs"); i++ {
		w.logs = append(w.logs, &logState{idx: i, tags: map[string]string{"grp": fmt.Sprintf("g%d", i%2), "n": fmt.Sprint(i)}})
	}
	w.noGlobalOrder = w.par("noOrder") == 1
	if w.par("strict") != 1 {
		w.disrupt = true
	}
	faults := c.faults
	c.faults = false
	if !w.boot() {
		return
	}
	for i := 0; i < w.par("nlogs")-w.par("late"); i++ {
		for k := 0; k < 3 && w.logs[i].id == ""; k++ {
			w.doCreate(i)
		}
	}
	c.faults = faults
	done := make(chan int, len(p.Actors)+1)
	n := 0
	for ai, ops := range p.Actors {
		if ai == 0 {
			continue
		}
		n++
		sim.GoNamed(fmt.Sprintf("client%d", ai), nil, func() {
			for _, o := range ops {
				if !w.waitUp() {
					break
				}
				w.step(o)
			}
			sim.SendNow(done, ai)
		})
	}
	chaosDone := make(chan int, 1)
	sim.GoNamed("chaos", nil, func() {
		for _, o := range p.Actors[0] {
			if len(c.viol) > 0 || w.stop {
				break
			}
			for w.changing {
				sim.Sleep(time.Millisecond)
			}
			if w.srv.node.Dead() {
				w.boot()
			}
			w.chaos(o)
		}
		// keep the server running
		for !w.stop && len(c.viol) == 0 {
			if w.srv.node.Dead() {
				if len(w.srv.node.Panics) > 0 {
					break
				}
				w.boot()
			}
			sim.Sleep(5 * time.Millisecond)
		}
		sim.SendNow(chaosDone, 1)
	})
	for i := 0; i < n; i++ {
		sim.Recv(done)
	}
	if w.panics(w.srv) {
		return
	}
	// the storm is over
	c.faults = false
	w.stop = true
	sim.Recv(chaosDone)
	w.stop = false
	w.d.remote.down = false
	if len(c.viol) > 0 || w.panics(w.srv) {
		return
	}
	w.srv.node.Disarm()
	if w.srv.node.Dead() || !w.srv.up {
		if !w.boot() {
			return
		}
	}
	w.final = true
	w.finish()
	if len(c.viol) == 0 && !w.panics(w.srv) {
		w.judge()
	}
}

// readAll reads the whole log; errors are retried for a while
func (w *world) readAll(i int, desc bool, limit int64) ([]rrec, bool) {
	if limit == 0 {
		limit = 1000
	}
	base := readRec{what: "read", logs: []int{i}, sel: "ids", limit: limit, desc: desc}
	all, err := w.walk(w.srv, base, w.patience(), 0)
	if err != nil {
		if w.panics(w.srv) {
			return nil, false
		}
		w.c.Fail("unreadable", "the log %s cannot be read any more although everything works again: %v", w.logs[i].id, err)
		return nil, false
	}
	return all, true
}

// patience is the number of times a request that fails is repeated before it is seen as failing for good. A
// request may fail because one of its chunks is just being swept, what is likely with the low thresholds of
// the simulation
func (w *world) patience() int {
	if w.par("sweepMax") < 1<<30 {
		return 40
	}
	return 14
}

// calm stops the sweeping, as the scanner does not see any chunk, if the request still fails after a while
func (w *world) calm(attempts, k int) {
	if attempts == w.patience() && k > 20 {
		w.d.disk.NoList = true
		w.c.Probe("sweeping-stopped")
	}
}

func (w *world) alive(i int) bool { return w.logs[i].id != "" && w.logs[i].delT0 == 0 }

func (w *world) finish() {
	c := w.c
	for i := range w.logs {
		if !w.alive(i) || w.par("quietEnd") == 1 {
			continue
		}
		if _, ok := w.readAll(i, false, 0); !ok {
			return
		}
	}
	// every log accepts new records again
	for i := range w.logs {
		if !w.alive(i) || w.par("quietEnd") == 1 {
			continue
		}
		ok := false
		var a *appRec
		for k := 0; k <= w.patience() && !ok; k++ {
			a = w.doAppend(Op{K: "app", A: int64(i), B: int64(1 + k%2), C: int64(k % 2), N: int64(900000 + i*10 + k), S: "x"})
			ok = a != nil && a.acked && a.added > 0
			if !ok {
				if w.panics(w.srv) || len(c.viol) > 0 {
					return
				}
				w.calm(w.patience(), k)
				sim.Sleep(time.Duration(20*min(k*k+1, 17))*time.Millisecond + time.Duration(i*7919+k*104729)%31000*time.Microsecond)
			}
		}
		w.d.disk.NoList = false
		if !ok {
			c.Fail("unwritable", "the log %s cannot be written any more although everything works again: %v", w.logs[i].id, a.err)
			return
		}
	}
	if w.par("scanWorkers") > 0 && w.par("replCheck") == 1 {
		w.replicated()
		if len(c.viol) > 0 {
			return
		}
	}
	if w.par("finalRestart") == 1 {
		sim.Crash(w.srv.node, "final restart")
		sim.Sleep(5 * time.Millisecond)
		if !w.boot() {
			return
		}
	}
	for _, o := range w.c.p.Final {
		w.step(o)
		if len(c.viol) > 0 || w.panics(w.srv) {
			return
		}
	}
	for i := range w.logs {
		if !w.alive(i) {
			continue
		}
		all, ok := w.readAll(i, false, int64(w.par("finalPage")))
		if !ok {
			return
		}
		w.decompose(w.logs[i], all)
		if len(c.viol) > 0 {
			return
		}
		if _, ok = w.readAll(i, true, int64(w.par("finalPage"))); !ok {
			return
		}
	}
	if w.par("finalStop") == 1 {
		s := w.srv
		if !s.shutdown(5 * time.Minute) {
			c.Fail("shutdown-hang", "the shutdown does not end: %v", clip(fmt.Sprint(sim.Blocked(s.node)), 1000))
			return
		}
		w.checkLeftovers(s)
	}
}

// chunkFiles calls f for all local chunk files
func (w *world) chunkFiles(f func(path string)) {
	for _, p := range w.d.disk.Paths() {
		if strings.HasPrefix(p, dataDir+"/") && len(filepath.Base(p)) == ulid.EncodedSize {
			f(p)
		}
	}
}

// unsettled returns the first chunk file whose content differs from its remote copy
func (w *world) unsettled() (res string) {
	w.chunkFiles(func(p string) {
		if res != "" || w.d.disk.Size(p) == 0 {
			return
		}
		id := filepath.Base(p)
		if b, ok := unzip(w.d.remote.objs["/"+id[len(id)-2:]+"/"+id]); !ok || !bytes.Equal(b, w.d.disk.Content(p)) {
			res = p
		}
	})
	if res == "" {
		res = w.overfull()
	}
	return res
}

// overfull returns a directory whose chunk files should have been moved away
func (w *world) overfull() string {
	size, free := map[string]int64{}, map[string]string{}
	w.chunkFiles(func(p string) {
		d := filepath.Dir(p)
		size[d] += w.d.disk.Size(p)
		if !w.d.disk.InUse(p) {
			free[d] = p
		}
	})
	for _, d := range sortedKeys(size) {
		if size[d] >= w.cfg.scanner.SweepMaxThresholdSize && free[d] != "" {
			return fmt.Sprintf("the chunk files in %s take %d bytes (the limit is %d), and nobody uses %s", d, size[d], w.cfg.scanner.SweepMaxThresholdSize, free[d])
		}
	}
	return ""
}

func unzip(z []byte) ([]byte, bool) {
	if len(z) == 0 {
		return nil, false
	}
	r, err := zip.NewReader(bytes.NewReader(z), int64(len(z)))
	if err != nil || len(r.File) != 1 {
		return nil, false
	}
	f, err := r.File[0].Open()
	if err != nil {
		return nil, false
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	return b, err == nil
}

// replicated: some scan periods later everything is stored remotely
func (w *world) replicated() {
	// reading brings swept chunks back, so a while without any activity is needed
	sc := w.cfg.scanner
	wait := sc.RemoteSyncThreshold + 4*sc.GlobalSyncTimeout + 15*time.Second
	for t := time.Duration(0); t < wait; {
		d := min(wait-t, max(sc.GlobalSyncTimeout, 50*time.Millisecond))
		sim.Sleep(d)
		t += d
		if w.srv.node.Dead() {
			w.panics(w.srv)
			return
		}
		if w.unsettled() == "" {
			wait = 0
		}
	}
	if s := w.overfull(); s != "" {
		w.c.Fail("not-swept", "%s, but it is not moved to the remote store", s)
		return
	}
	w.snapshot(true)
}

func init() {
	register("log", []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12"}, &scenario{gen: genLog, run: runLog})
}
