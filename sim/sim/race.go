package sim

import (
	"fmt"
	"unsafe"
)

// Data race detection: a happens-before (vector clock) detector over the accesses the rewriter has marked (flag -race).
// The simulation's own hand-over between tasks is no synchronisation, only what the code under test does is.

// Race turns the detector on; it is set before Run
var Race bool

// rthread is the clock of a task (or of a timer)
type rthread struct {
	id int
	vc []uint32
}

func (t *rthread) at(i int) uint32 {
	if i < len(t.vc) {
		return t.vc[i]
	}
	return 0
}

func (t *rthread) join(vc []uint32) {
	if len(vc) > len(t.vc) {
		n := make([]uint32, len(vc))
		copy(n, t.vc)
		t.vc = n
	}
	for i, c := range vc {
		if c > t.vc[i] {
			t.vc[i] = c
		}
	}
}

func (t *rthread) snap() []uint32 { return append([]uint32(nil), t.vc...) }
func (t *rthread) inc()           { t.vc[t.id]++ }

type raccess struct {
	id   int32
	c    uint32
	site string
	task string
}

type rword struct {
	w, a  raccess // last write, last atomic access
	reads []raccess
}

// raceCells bounds the memory of the detector: a run that needs more ends like one that took too many steps
const raceCells = 16_000_000

// RaceReport is a pair of conflicting accesses
type RaceReport struct{ A, B, Text string }

type raceState struct {
	words    map[unsafe.Pointer]*rword
	globals  map[gkey]*rword
	sync     map[unsafe.Pointer]*[]uint32
	seen     map[[2]string]bool
	reports  []RaceReport
	threads  int
	timer    *rthread // the clock in whose name a timer callback runs
	join     []uint32 // clocks of ended tasks
	glo, ghi uintptr
	count    int64
	off      bool
	timerC   uint32
	cells    int64 // the size of words and sync, about, in units of 4 bytes
}

type gkey struct {
	n *Node
	p unsafe.Pointer
}

func newRaceState() *raceState {
	r := &raceState{words: map[unsafe.Pointer]*rword{}, globals: map[gkey]*rword{}, sync: map[unsafe.Pointer]*[]uint32{}, seen: map[[2]string]bool{}, threads: 1}
	r.glo, r.ghi = globalLo, globalHi
	return r
}

var globalLo, globalHi uintptr

func raceGlobal(p unsafe.Pointer, size uintptr) {
	a := uintptr(p)
	if globalLo == 0 || a < globalLo {
		globalLo = a
	}
	if a+size > globalHi {
		globalHi = a + size
	}
}

func (r *raceState) newThread(from []uint32) *rthread {
	t := &rthread{id: r.threads}
	r.threads++
	t.vc = make([]uint32, t.id+1)
	t.join(from)
	t.vc[t.id] = 1
	return t
}

// newTimerThread is the clock of a timer callback; all of them have the number 0
func (r *raceState) newTimerThread(from []uint32) *rthread {
	t := &rthread{}
	t.join(from)
	if len(t.vc) == 0 {
		t.vc = make([]uint32, 1)
	}
	r.timerC++
	t.vc[0] = r.timerC
	return t
}

func (s *Sim) raceTask(t *Task) {
	r := s.race
	if cur == nil {
		t.rt = r.newThread(nil)
		return
	}
	me := r.me()
	t.rt = r.newThread(me.vc)
	me.inc()
}

// me is the clock of whoever runs now
func (r *raceState) me() *rthread {
	if S.inTimer && r.timer != nil {
		return r.timer
	}
	return cur.rt
}

// Acq makes what was released at p happen before the current task's future
func Acq(p unsafe.Pointer) {
	if !Race || S == nil {
		return
	}
	if vc := S.race.sync[p]; vc != nil {
		S.race.me().join(*vc)
	}
}

// Rel makes the current task's past visible to those who acquire p
func Rel(p unsafe.Pointer) {
	if !Race || S == nil {
		return
	}
	r := S.race
	t := r.me()
	vc := r.sync[p]
	if vc == nil {
		vc = &[]uint32{}
		r.sync[p] = vc
		r.cells += int64(len(t.vc)) + 20
	}
	x := rthread{vc: *vc}
	x.join(t.vc)
	*vc = x.vc
	t.inc()
}

// AcqRel does both
func AcqRel(p unsafe.Pointer) { Acq(p); Rel(p) }

// Joined makes everything the ended tasks did happen before the current task's future (the harness waits for its clients)
func Joined() {
	if Race && S != nil {
		S.race.me().join(S.race.join)
	}
}

func (r *raceState) word(p unsafe.Pointer) *rword {
	if a := uintptr(p); a >= r.glo && a < r.ghi {
		k := gkey{cur.Node, p}
		w := r.globals[k]
		if w == nil {
			w = &rword{}
			r.globals[k] = w
		}
		return w
	}
	w := r.words[p]
	if w == nil {
		w = &rword{}
		r.words[p] = w
		r.cells += 45
	}
	return w
}

const (
	accRead = iota
	accWrite
	accAtomic
)

func (r *raceState) access(p unsafe.Pointer, size uintptr, kind int, site string) {
	if r.off || size == 0 || cur == nil || cur.rt == nil {
		return
	}
	if size <= 8 {
		r.access1(p, kind, site)
		return
	}
	// the words which lie entirely in the variable
	off := (8 - uintptr(p)&7) & 7
	for i := off; i+8 <= size && i < 512; i += 8 {
		r.access1(unsafe.Add(p, i), kind, site)
	}
}

func (r *raceState) access1(p unsafe.Pointer, kind int, site string) {
	r.count++
	t := r.me()
	w := r.word(p)
	id := int32(t.id)
	before := func(a *raccess) bool { return a.c == 0 || a.id == id || t.at(int(a.id)) >= a.c }
	me := raccess{id: id, c: t.at(t.id), site: site}
	if cur != nil {
		me.task = cur.Name
	}
	switch kind {
	case accRead:
		if !before(&w.w) {
			r.report(&w.w, "write", site, "read")
		}
		for i := range w.reads {
			if w.reads[i].id == id {
				w.reads[i] = me
				return
			}
		}
		if len(w.reads) > 0 {
			// reads which happened before this one are not needed any more
			k := 0
			for i := range w.reads {
				if !before(&w.reads[i]) {
					w.reads[k] = w.reads[i]
					k++
				}
			}
			w.reads = w.reads[:k]
		}
		w.reads = append(w.reads, me)
	case accWrite:
		if !before(&w.w) {
			r.report(&w.w, "write", site, "write")
		}
		if !before(&w.a) {
			r.report(&w.a, "atomic access", site, "write")
		}
		for i := range w.reads {
			if !before(&w.reads[i]) {
				r.report(&w.reads[i], "read", site, "write")
			}
		}
		w.reads = w.reads[:0]
		w.w = me
	case accAtomic:
		if !before(&w.w) {
			r.report(&w.w, "write", site, "atomic access")
		}
		w.a = me
	}
}

func (r *raceState) report(a *raccess, ak, site, bk string) {
	x, y := a.site+" "+ak, site+" "+bk
	if y < x {
		x, y = y, x
	}
	k := [2]string{x, y}
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.reports = append(r.reports, RaceReport{x, y, fmt.Sprintf("%s of %s in task %s races with %s of %s in task %s", ak, a.site, a.task, bk, site, cur.Name)})
	if S.cfg.Verbose {
		S.log("RACE " + r.reports[len(r.reports)-1].Text)
	}
	S.mixs("race " + x + y)
}

// Races returns the races of the run
func (s *Sim) Races() []RaceReport {
	if s.race == nil {
		return nil
	}
	return s.race.reports
}

// RaceCount is the number of checked accesses
func (s *Sim) RaceCount() int64 {
	if s.race == nil {
		return 0
	}
	return s.race.count
}

// Rd records a read of *p
func Rd[T any](p *T, site string) *T {
	if Race && S != nil && p != nil {
		S.race.access(unsafe.Pointer(p), unsafe.Sizeof(*p), accRead, site)
	}
	return p
}

// Wr records a write to *p
func Wr[T any](p *T, site string) *T {
	if Race && S != nil && p != nil {
		S.race.access(unsafe.Pointer(p), unsafe.Sizeof(*p), accWrite, site)
	}
	return p
}

// RdMap records a read of the map
func RdMap[M ~map[K]V, K comparable, V any](m M, site string) M {
	if Race && S != nil && m != nil {
		S.race.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, accRead, site)
	}
	return m
}

// WrMap records a change of the map
func WrMap[M ~map[K]V, K comparable, V any](m M, site string) M {
	if Race && S != nil && m != nil {
		S.race.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), 8, accWrite, site)
	}
	return m
}

// Copy is the built-in function for slices
func Copy[S1 ~[]T, S2 ~[]T, T any](dst S1, src S2, sd, ss string) int {
	if Race && S != nil {
		n := uintptr(min(len(dst), len(src))) * unsafe.Sizeof(*new(T))
		rangeAcc(unsafe.Pointer(unsafe.SliceData(src)), n, accRead, ss)
		rangeAcc(unsafe.Pointer(unsafe.SliceData(dst)), n, accWrite, sd)
	}
	return copy(dst, src)
}

func rangeAcc(p unsafe.Pointer, n uintptr, kind int, site string) {
	if p == nil {
		return
	}
	for n > 0 {
		c := min(n, 256)
		S.race.access(p, c, kind, site)
		n -= c
		if n > 0 {
			p = unsafe.Add(p, c)
		}
	}
}

// YA is a preemption point at an atomic operation on *p
func YA(p unsafe.Pointer) {
	YS()
	if Race && S != nil {
		AcqRel(p)
		S.race.access(p, 1, accAtomic, "")
	}
}
