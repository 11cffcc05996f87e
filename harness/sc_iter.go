package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/solarisdb/solaris/golibs/container"
	"github.com/solarisdb/solaris/golibs/container/iterable"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/ssync"
)

// ---------------------------------------------------------------- C25: ordered map, mixer and ring buffer

// itEntry is an entry of the model: the map is the list of those that are not removed, in the order of their numbers
type itEntry struct {
	seq, k, v int
}

type itIter struct {
	it    iterable.Iterator[iterable.MapEntry[int, int]]
	pos   int // the number of the last entry it has returned
	owner int
}

type itWorld struct {
	c     *Ctx
	mu    ssync.Mutex // the containers are not safe for concurrent use, their users lock
	m     *iterable.Map[int, int]
	model []itEntry
	seq   int
	its   []*itIter
	rings map[int]*itRing
	mixes map[int]*itMix
}

type itRing struct {
	b     container.RingBuffer[int]
	size  int
	model []int
}

type itMix struct {
	it    iterable.Iterator[int]
	all   []int
	pos   int
	reset func() error
}

func genIter(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "iter", seed)
	p.MaxSteps = 1_000_000
	p.P["endless"] = 1
	p.P["keys"] = sim.Pick(r, 1, 2, 3, 5, 10)
	p.P["iters"] = sim.Pick(r, 1, 2, 4, 8)
	na := sim.Pick(r, 1, 2, 3, 4)
	kinds := []string{"add", "add", "add", "del", "del", "del", "next", "next", "next", "has", "open", "close", "get"}
	if r.Pct(30) {
		kinds = append(kinds, "mnew", "mnext", "mnext", "mnext", "mnext", "mnext", "mhas", "mreset")
	}
	if r.Pct(30) {
		kinds = append(kinds, "rnew", "rwrite", "rwrite", "rwrite", "rwrite", "rread", "rread", "rskip", "rmany", "rat", "rclear")
	}
	n := sim.Pick(r, 10, 30, 100, 300)
	p.Actors = make([][]Op, na)
	for i := 0; i < n; i++ {
		o := Op{K: kinds[r.Intn(len(kinds))], A: int64(r.Intn(p.P["keys"])), B: int64(r.Intn(1 << 16)), N: int64(i + 1)}
		a := r.Intn(na)
		p.Actors[a] = append(p.Actors[a], o)
	}
	return p
}

func (w *itWorld) find(k int) int {
	for i, e := range w.model {
		if e.k == k {
			return i
		}
	}
	return -1
}

// after returns the first entry of the model behind the position
func (w *itWorld) after(pos int) *itEntry {
	for i := range w.model {
		if w.model[i].seq > pos {
			return &w.model[i]
		}
	}
	return nil
}

func (w *itWorld) check() {
	if n := w.m.Len(); n != len(w.model) {
		w.c.Fail("len", "the map has the length %d, it has %d entries", n, len(w.model))
	}
	k, ok := w.m.First()
	if e := w.after(0); ok != (e != nil) || ok && k != e.k {
		w.c.Fail("first", "the first key is %d (%v), the map is %v", k, ok, w.model)
	}
}

func (w *itWorld) exec(who int, o Op) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.c.viol) > 0 {
		return
	}
	r := sim.NewRng(hashSeed("iter", w.c.p.Seed*1000+uint64(o.N)))
	k := int(o.A)
	pick := func() int {
		var l []int
		for i, it := range w.its {
			if it.owner == who {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return l[r.Intn(len(l))]
	}
	switch o.K {
	case "add":
		w.seq++
		err := w.m.Add(k, w.seq)
		if i := w.find(k); (err != nil) != (i >= 0) {
			w.c.Fail("add", "adding the key %d returns %v, the map is %v", k, err, w.model)
		}
		if err == nil {
			w.model = append(w.model, itEntry{w.seq, k, w.seq})
		}
		w.check()
	case "del":
		w.m.Remove(k)
		if i := w.find(k); i >= 0 {
			w.model = append(w.model[:i:i], w.model[i+1:]...)
			w.c.Probe("removed")
		}
		w.check()
	case "get":
		v, ok := w.m.Get(k)
		if i := w.find(k); ok != (i >= 0) || ok && v != w.model[i].v {
			w.c.Fail("get", "the key %d has the value %d (%v), the map is %v", k, v, ok, w.model)
		}
	case "open":
		if len(w.its) < w.c.par("iters") {
			w.its = append(w.its, &itIter{it: w.m.Iterator(), owner: who})
		}
	case "close":
		if i := pick(); i >= 0 {
			if err := w.its[i].it.Close(); err != nil {
				w.c.Fail("close", "an iterator cannot be closed: %v", err)
			}
			w.its = append(w.its[:i:i], w.its[i+1:]...)
			w.check()
		}
	case "has":
		if i := pick(); i >= 0 {
			if e, has := w.after(w.its[i].pos), w.its[i].it.HasNext(); has != (e != nil) {
				w.c.Fail("has", "HasNext returns %v, the iterator is behind the entry %d of the map %v", has, w.its[i].pos, w.model)
			}
		}
	case "next":
		if i := pick(); i >= 0 {
			it := w.its[i]
			x, ok := it.it.Next()
			e := w.after(it.pos)
			if ok != (e != nil) || ok && (x.Key != e.k || x.Value != e.v) {
				w.c.Fail("next", "Next returns %v (%v), the iterator is behind the entry %d of the map %v", x, ok, it.pos, w.model)
			}
			if e != nil {
				it.pos = e.seq
				w.c.Probe("next")
			}
		}
	case "mnew":
		w.mixes[who] = newItMix(r)
	case "mhas", "mnext", "mreset":
		if m := w.mixes[who]; m != nil {
			w.mix(m, o.K)
		}
	default:
		w.ring(who, o, r)
	}
}

// newItMix is a tree of mixers over sorted sources
func newItMix(r *sim.Rng) *itMix {
	res := &itMix{}
	less := func(a, b int) bool { return a/10 <= b/10 }
	var tree func(depth int) iterable.Iterator[int]
	tree = func(depth int) iterable.Iterator[int] {
		if depth == 0 || r.Pct(20) {
			l := make([]int, r.Intn(5))
			for i := range l {
				l[i] = r.Intn(100)
			}
			sort.Ints(l)
			res.all = append(res.all, l...)
			return iterable.WrapIntSlice(l)
		}
		m := &iterable.Mixer[int]{}
		m.Init(less, tree(depth-1), tree(depth-1))
		return m
	}
	m := &iterable.Mixer[int]{}
	d := r.Intn(4)
	m.Init(less, tree(d), tree(d))
	res.it, res.reset = m, m.Reset
	return res
}

func (w *itWorld) mix(m *itMix, kind string) {
	switch kind {
	case "mreset":
		if err := m.reset(); err != nil {
			w.c.Fail("mixer", "a mixer over slices cannot be reset: %v", err)
		}
		m.pos = 0
		m.all = append([]int(nil), m.all...)
	case "mhas":
		if has := m.it.HasNext(); has != (m.pos < len(m.all)) {
			w.c.Fail("mixer", "HasNext of a mixer returns %v after %d of %d elements", has, m.pos, len(m.all))
		}
	default:
		v, ok := m.it.Next()
		if ok != (m.pos < len(m.all)) {
			w.c.Fail("mixer", "Next of a mixer returns %d (%v) after %d of %d elements", v, ok, m.pos, len(m.all))
			return
		}
		if !ok {
			return
		}
		// the element must be one of the remaining ones with the smallest order
		best := -1
		for i := m.pos; i < len(m.all); i++ {
			if m.all[i] == v {
				best = i
			}
			if m.all[i]/10 < v/10 {
				w.c.Fail("mixer", "a mixer returns %d before %d", v, m.all[i])
			}
		}
		if best < 0 {
			w.c.Fail("mixer", "a mixer returns %d, the remaining elements are %v", v, m.all[m.pos:])
			return
		}
		m.all[m.pos], m.all[best] = m.all[best], m.all[m.pos]
		m.pos++
		w.c.Probe("mixed")
	}
}

func (w *itWorld) ring(who int, o Op, r *sim.Rng) {
	b := w.rings[who]
	if o.K == "rnew" || b == nil {
		n := sim.Pick(r, 0, 1, 2, 3, 7, 20)
		b = &itRing{size: n, b: container.NewRingBuffer[int](uint(n))}
		w.rings[who] = b
	}
	fail := func(f string, a ...any) {
		w.c.Fail("ring", "%s; the buffer of %d has %v", fmt.Sprintf(f, a...), b.size, b.model)
	}
	switch o.K {
	case "rwrite":
		for n := 1 + r.Intn(3); n > 0; n-- {
			err := b.b.Write(int(o.N)*10 + n)
			full := len(b.model) == b.size
			if (err != nil) != full || full && !errors.Is(err, gerrors.ErrExhausted) {
				fail("Write returns %v", err)
			}
			if !full {
				b.model = append(b.model, int(o.N)*10+n)
			}
		}
	case "rread":
		v, err := b.b.Read()
		if (err == io.EOF) != (len(b.model) == 0) || err != nil && err != io.EOF || err == nil && v != b.model[0] {
			fail("Read returns %d, %v", v, err)
		}
		if len(b.model) > 0 {
			b.model = b.model[1:]
		}
	case "rmany":
		dst := make([]int, r.Intn(b.size+3))
		n := b.b.ReadN(dst)
		want := min(len(dst), len(b.model))
		if n != want || fmt.Sprint(dst[:want]) != fmt.Sprint(b.model[:want]) {
			fail("ReadN of %d returns %d: %v", len(dst), n, dst)
		}
		b.model = b.model[want:]
	case "rskip":
		k := r.Intn(b.size+4) - 1
		n := b.b.Skip(k)
		want := max(min(k, len(b.model)), 0)
		if n != want {
			fail("Skip of %d returns %d", k, n)
		}
		b.model = b.model[want:]
	case "rat":
		for i, v := range b.model {
			if x := b.b.At(i); x != v {
				fail("At(%d) is %d", i, x)
			}
		}
	case "rclear":
		if r.Pct(30) {
			b.b.Clear()
			b.model = nil
		}
	}
	if b.b.Len() != len(b.model) || b.b.Cap() != b.size {
		fail("Len is %d, Cap is %d", b.b.Len(), b.b.Cap())
	}
}

func runIter(c *Ctx) {
	w := &itWorld{c: c, rings: map[int]*itRing{}, mixes: map[int]*itMix{}}
	p := newProc(c, "proc", nil)
	if !p.do("new", time.Minute, func() { w.m = iterable.NewMap[int, int]() }) {
		return
	}
	for ai, ops := range c.p.Actors {
		p.spawn(fmt.Sprintf("actor%d", ai), func() {
			for _, o := range ops {
				w.exec(ai, o)
				sim.YS()
			}
		})
	}
	if !p.join(time.Minute) {
		return
	}
	// what is there can be iterated over, also after all iterators are closed
	p.do("end", time.Minute, func() {
		for round := 0; round < 2; round++ {
			var got []string
			var want []string
			it := w.m.Iterator()
			for it.HasNext() {
				e, _ := it.Next()
				got = append(got, fmt.Sprint(e.Key, "=", e.Value))
			}
			_ = it.Close()
			for _, e := range w.model {
				want = append(want, fmt.Sprint(e.k, "=", e.v))
			}
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Fail("content", "the map contains %v, should be %v", got, want)
			}
			for _, x := range w.its {
				_ = x.it.Close()
			}
			w.its = nil
		}
	})
}

func init() {
	register("iter", []string{"C25"}, &scenario{genIter, runIter})
	scnInfo["iter"] = scnDesc{
		real:   []string{"golibs/container/iterable (Map, Mixer, slice iterator), golibs/container (ring buffer)"},
		stub:   []string{"goroutine scheduler, sync.Pool (simulated)"},
		assume: []string{"the users of a container lock around each call, as its documentation requires, and keep their iterators between the calls"},
	}
}
