package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/solarisdb/solaris/golibs/container/bytes"
	gerrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/zsim/sim"
	"github.com/solarisdb/solaris/zsim/sos"
)

// ---------------------------------------------------------------- C19: Blocks over memory and mapped files

const blkFile = "/data/blocks"

// blkHold is a block a task has got and not given back
type blkHold struct {
	idx     int
	pat     uint64 // what it has written there, 0: nothing yet
	freeing bool
}

type blkOp struct {
	*linOp
	kind string
	idx  int
	err  string
}

type blkWorld struct {
	c     *Ctx
	p     *proc
	disk  *sos.Disk
	mem   bytes.Buffer
	bs    int
	cap   int
	b     *bytes.Blocks
	ops   []*linOp
	held  map[int]*blkHold
	wild  bool // blocks are freed by those who do not own them
	npat  uint64
	extra int
}

func blkSegment(bs int) int { return (bs*8 + 1) * bs }

func genBlocks(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "blocks", seed)
	p.MaxSteps = 2_000_000
	bs := sim.Pick(r, 1, 1, 1, 1, 2, 2, 2, 4, 4, 8, 8, 16, 64)
	segs := 1 + r.Intn(4)
	p.P["bs"], p.P["segs"] = bs, segs
	p.P["file"] = sim.Pick(r, 0, 1)
	if p.P["file"] != 0 && r.Pct(90) {
		bs = sim.Pick(r, 8, 8, 16, 16, 32) // a file has at least 4096 bytes
		segs = 1 + r.Intn(8)/4
		p.P["bs"], p.P["segs"] = bs, segs
	}
	if p.P["file"] == 0 && bs > 8 && r.Pct(70) {
		p.P["segs"] = 1
	}
	p.P["fit"] = r.Intn(2)
	p.P["extra"] = sim.Pick(r, 0, 0, 1, blkSegment(bs)-1) // bytes behind the last segment
	if r.Pct(40) {
		p.P["wild"] = 1
	}
	p.P["fill"] = sim.Pick(r, 0, 0, 1, 2) // 1: nearly full at the beginning, 2: full and randomly freed
	phases := 1 + r.Intn(4)
	na := sim.Pick(r, 1, 2, 2, 3, 4)
	p.P["phases"] = phases
	p.P["na"] = na
	max := 4 + r.Intn(12)
	for i := 0; i < phases; i++ {
		// how the phase ends: 0 close and open again, 1 open again without closing, 2 crash, 3 grow, close and open again
		end := r.Intn(4)
		p.P[fmt.Sprint("end", i)] = end
		p.P[fmt.Sprint("steps", i)] = 1 + r.Intn(sim.Pick(r, 60, 600, 2000))
		for a := 0; a < na; a++ {
			var ops []Op
			for k := r.Intn(max + 1); k > 0; k-- {
				o := Op{A: int64(r.Intn(1 << 20)), N: int64(r.U64() >> 16)}
				o.K = sim.Pick(r, "alloc", "alloc", "alloc", "alloc", "free", "free", "check", "avail", "bounds")
				if p.P["wild"] != 0 && r.Pct(30) {
					o.K = "wfree"
				}
				if r.Pct(10) {
					o.K = "dfree"
				}
				ops = append(ops, o)
			}
			p.Actors = append(p.Actors, ops)
		}
	}
	if r.Pct(40) {
		for _, k := range []string{"fs.open", "fs.stat", "fs.mmap", "fs.truncate", "fs.close"} {
			p.Rates[k] = sim.Pick(r, 0, 500, 3000)
		}
	}
	return p
}

// --- the model: the state is the set of the allocated blocks, one byte for eight of them, behind it the capacity

func blkState(cap int, set map[int]bool) string {
	b := make([]byte, (cap+7)/8)
	for i := range set {
		b[i/8] |= 1 << (i % 8)
	}
	return string(b)
}

func blkHas(st string, i int) bool { return st[i/8]&(1<<(i%8)) != 0 }

func blkFlip(st string, i int) string {
	b := []byte(st)
	b[i/8] ^= 1 << (i % 8)
	return string(b)
}

func blkCount(st string) (n int) {
	for i := 0; i < len(st); i++ {
		for x := st[i]; x != 0; x &= x - 1 {
			n++
		}
	}
	return
}

func (w *blkWorld) begin(name string) *linOp {
	o := &linOp{t0: sim.Tick(), t1: linForever, opt: true, name: name, step: func(st string) []string { return nil }}
	w.ops = append(w.ops, o)
	return o
}

func (o *linOp) end(name string, step func(st string) []string) {
	o.t1, o.opt, o.step = sim.Tick(), false, step
	o.name = fmt.Sprintf("%s%s[%d-%d]", o.name, name, o.t0, o.t1)
}

// direct allocates outside of the recorded history, while nothing else runs
func (w *blkWorld) direct() (int, bool) {
	idx, err := w.b.ArrangeBlock()
	if err != nil {
		if !errors.Is(err, gerrors.ErrExhausted) {
			w.c.Fail("error", "ArrangeBlock: %v", err)
		}
		return 0, false
	}
	if idx < 0 || idx >= w.cap {
		w.c.Fail("range", "ArrangeBlock returns the block %d, there are %d", idx, w.cap)
		return 0, false
	}
	return idx, true
}

func (w *blkWorld) alloc() (int, bool) {
	c := w.c
	o := w.begin("alloc")
	cap := w.cap
	o.step = func(st string) (r []string) { // the process dies before it returns
		for i := 0; i < cap; i++ {
			if !blkHas(st, i) {
				r = append(r, blkFlip(st, i))
			}
		}
		return
	}
	idx, err := w.b.ArrangeBlock()
	switch {
	case err == nil:
		o.end(fmt.Sprintf("=%d", idx), func(st string) []string {
			if idx < 0 || idx >= cap || blkHas(st, idx) {
				return nil
			}
			return []string{blkFlip(st, idx)}
		})
		if idx < 0 || idx >= cap {
			c.Fail("range", "ArrangeBlock returns the block %d, there are %d", idx, cap)
			return 0, false
		}
		if h := w.held[idx]; h != nil && !w.wild && !h.freeing {
			c.Fail("twice", "ArrangeBlock returns the block %d, which is in use", idx)
		}
		return idx, true
	case errors.Is(err, gerrors.ErrExhausted):
		o.end("=exhausted", func(st string) []string {
			if blkCount(st) < cap {
				return nil
			}
			return []string{st}
		})
		c.Probe("exhausted")
	default:
		o.end("=?", func(st string) []string { return []string{st} })
		c.Fail("error", "ArrangeBlock: %v", err)
	}
	return 0, false
}

func (w *blkWorld) free(idx int) {
	c := w.c
	o := w.begin(fmt.Sprintf("free(%d)", idx))
	cap := w.cap
	in := idx >= 0 && idx < cap
	o.step = func(st string) []string {
		if in && blkHas(st, idx) {
			return []string{blkFlip(st, idx)}
		}
		return nil
	}
	err := w.b.FreeBlock(idx)
	switch {
	case !in:
		o.end("", func(st string) []string { return []string{st} })
		if !errors.Is(err, gerrors.ErrInvalid) {
			c.Fail("range", "FreeBlock(%d): %v, there are %d blocks", idx, err, cap)
		}
	case err == nil:
		o.end("=ok", o.step)
	case errors.Is(err, gerrors.ErrNotExist):
		o.end("=free", func(st string) []string {
			if blkHas(st, idx) {
				return nil
			}
			return []string{st}
		})
		c.Probe("double-free")
	default:
		o.end("=?", func(st string) []string { return []string{st} })
		c.Fail("error", "FreeBlock(%d): %v", idx, err)
	}
}

func (w *blkWorld) avail() {
	o := w.begin("available")
	o.step = func(st string) []string { return []string{st} }
	cap := w.cap
	n := w.b.Available()
	o.end(fmt.Sprintf("=%d", n), func(st string) []string {
		if blkCount(st) != cap-n {
			return nil
		}
		return []string{st}
	})
}

func (w *blkWorld) block(idx int) []byte {
	b, err := w.b.Block(idx)
	if err != nil || len(b) != w.bs {
		w.c.Fail("block", "Block(%d): %d bytes, %v", idx, len(b), err)
		return nil
	}
	return b
}

func blkFill(b []byte, pat uint64) {
	r := sim.NewRng(pat)
	for i := range b {
		b[i] = byte(r.U64() >> 24)
	}
	if pat%3 == 0 {
		for i := range b {
			b[i] = byte(-int(pat & 1))
		}
	}
}

func (w *blkWorld) verify(h *blkHold, when string) {
	if h.pat == 0 || w.wild {
		return
	}
	b := w.block(h.idx)
	if b == nil {
		return
	}
	want := make([]byte, len(b))
	blkFill(want, h.pat)
	if string(want) != string(b) {
		w.c.Fail("content", "the block %d has not the content its owner has written (%s)", h.idx, when)
	}
}

type blkTask struct {
	own  []*blkHold
	last int // the block freed last
}

func (w *blkWorld) exec(t *blkTask, o Op) {
	c := w.c
	switch o.K {
	case "alloc":
		idx, ok := w.alloc()
		if !ok {
			return
		}
		h := &blkHold{idx: idx}
		w.held[idx] = h
		t.own = append(t.own, h)
		b := w.block(idx)
		if b != nil {
			w.npat++
			pat := w.npat
			blkFill(b, pat)
			h.pat = pat
		}
	case "free":
		if len(t.own) == 0 {
			return
		}
		i := int(o.A) % len(t.own)
		h := t.own[i]
		t.own = append(t.own[:i:i], t.own[i+1:]...)
		w.verify(h, "before it is freed")
		h.freeing = true
		w.free(h.idx)
		if w.held[h.idx] == h {
			delete(w.held, h.idx)
		}
		t.last = h.idx
	case "dfree":
		// only those who cannot hit somebody else's block
		if w.wild || c.par("na") == 1 {
			if w.held[t.last] == nil || w.wild {
				w.free(t.last)
			}
		}
	case "wfree":
		w.free(int(o.A) % w.cap)
	case "check":
		for _, h := range t.own {
			w.verify(h, "while it is used")
		}
	case "avail":
		w.avail()
	case "bounds":
		for _, i := range []int{-1, w.cap, w.cap + int(o.A), -int(o.A) - 1} {
			if _, err := w.b.Block(i); !errors.Is(err, gerrors.ErrInvalid) {
				c.Fail("range", "Block(%d): %v, there are %d blocks", i, err, w.cap)
			}
			w.free(i)
		}
		if w.b.Count() != w.cap || w.b.Segments() != w.cap/(w.bs*8) {
			c.Fail("range", "there are %d blocks in %d segments, not %d", w.b.Count(), w.b.Segments(), w.cap)
		}
	}
}

// open opens the storage; without faults it has to work
func (w *blkWorld) open() bool {
	c := w.c
	for i := 0; ; i++ {
		if i > 20 {
			c.faults = false
		}
		var buf bytes.Buffer
		ok := w.p.do("open", time.Minute, func() {
			if w.mem != nil {
				buf = w.mem
				return
			}
			f, err := files.NewMMFile(blkFile, sim.Pick(c.rng, int64(-1), int64(4096), int64(w.disk.Size(blkFile))))
			if err != nil {
				if !c.faults || len(c.p.Rates) == 0 {
					c.Fail("open", "NewMMFile: %v", err)
				}
				return
			}
			buf = f
		})
		if !ok {
			if len(c.viol) > 0 {
				return false
			}
			w.p = newProc(c, "proc", w.disk)
			continue
		}
		if buf == nil {
			if len(c.viol) > 0 {
				return false
			}
			continue
		}
		size := int(buf.Size())
		segs := size / blkSegment(w.bs)
		exact := size%blkSegment(w.bs) == 0
		opened := false
		if !w.p.do("blocks", time.Minute, func() {
			if c.rng.Pct(20) {
				bad := sim.Pick(c.rng, 0, -1, 3, 100, 4097, 6000)
				if _, err := bytes.NewBlocks(bad, buf, c.rng.Pct(50)); err == nil {
					c.Fail("invalid", "NewBlocks accepts the block size %d", bad)
				}
			}
			if !exact {
				if _, err := bytes.NewBlocks(w.bs, buf, true); !errors.Is(err, gerrors.ErrInvalid) {
					c.Fail("invalid", "NewBlocks accepts the storage of %d bytes for blocks of %d bytes: %v", size, w.bs, err)
				}
			}
			var err error
			if w.b, err = bytes.NewBlocks(w.bs, buf, exact && c.par("fit") != 0); err != nil {
				c.Fail("open", "NewBlocks: %v", err)
				return
			}
			opened = true
		}) {
			return false
		}
		if !opened {
			return false
		}
		w.cap = segs * w.bs * 8
		cap := w.cap
		if cap == 0 {
			c.HarnessError("no segment")
			return false
		}
		t := sim.Tick()
		w.ops = append(w.ops, &linOp{t0: t, t1: t, name: fmt.Sprintf("open(%d)", cap), step: func(st string) []string {
			return []string{st + string(make([]byte, cap/8-len(st)))}
		}})
		return true
	}
}

func runBlocks(c *Ctx) {
	w := &blkWorld{c: c, bs: c.par("bs"), held: map[int]*blkHold{}, wild: c.par("wild") != 0, disk: sos.NewDisk("disk")}
	size := blkSegment(w.bs)*c.par("segs") + c.par("extra")
	w.p = newProc(c, "proc", w.disk)
	if c.par("file") != 0 {
		size = (size + 4095) / 4096 * 4096
		w.disk.Mkdirs("/data")
		w.disk.Put(blkFile, make([]byte, size))
	} else {
		w.mem = bytes.NewInMemBytes(size)
	}
	tasks := make([]*blkTask, c.par("na"))
	for i := range tasks {
		tasks[i] = &blkTask{}
	}
	if !w.open() {
		return
	}
	r := sim.NewRng(hashSeed("fill", c.p.Seed))
	if c.par("fill") != 0 {
		if !w.p.do("fill", time.Minute, func() {
			t := tasks[0]
			full := map[int]bool{}
			for i := 0; i < w.cap; i++ {
				idx, ok := w.direct()
				if !ok {
					c.Fail("exhausted", "ArrangeBlock finds no block, but only %d of %d are allocated", i, w.cap)
					return
				}
				if full[idx] {
					c.Fail("twice", "ArrangeBlock returns the block %d, which is in use", idx)
					return
				}
				full[idx] = true
				h := &blkHold{idx: idx}
				w.held[idx] = h
				t.own = append(t.own, h)
			}
			tm, filled := sim.Tick(), blkState(w.cap, full)
			w.ops = append(w.ops, &linOp{t0: tm, t1: tm, name: "fill", step: func(st string) []string {
				return []string{filled}
			}})
			w.alloc()
			n := r.Intn(6)
			if c.par("fill") == 2 {
				n = r.Intn(w.cap)
			}
			for ; n > 0 && len(t.own) > 0; n-- {
				w.exec(t, Op{K: "free", A: int64(r.Intn(1 << 20))})
			}
		}) {
			return
		}
		// the blocks are shared
		own := tasks[0].own
		tasks[0].own = nil
		for _, h := range own {
			t := tasks[r.Intn(len(tasks))]
			t.own = append(t.own, h)
		}
	}
	na := c.par("na")
	for ph := 0; ph < c.par("phases") && len(c.viol) == 0; ph++ {
		end := c.par(fmt.Sprint("end", ph))
		crash := end == 2 && w.mem == nil
		if crash {
			w.p.node.ArmCrash(int64(c.par(fmt.Sprint("steps", ph))))
		}
		for a := 0; a < na; a++ {
			ops, t := c.p.Actors[ph*na+a], tasks[a]
			w.p.spawn(fmt.Sprintf("actor%d", a), func() {
				for _, o := range ops {
					w.exec(t, o)
				}
			})
		}
		alive := w.p.join(10 * time.Minute)
		if len(c.viol) > 0 {
			return
		}
		if !alive || crash {
			if alive {
				sim.Crash(w.p.node, "the phase ends")
			}
			w.crashed(tasks)
		} else {
			w.p.node.Disarm()
			if !w.p.do("end", time.Minute, func() {
				w.avail()
				w.all(tasks, "at the end")
				w.closing(end)
			}) {
				return
			}
		}
		if len(c.viol) > 0 || !w.open() {
			return
		}
		if !w.p.do("reopened", time.Minute, func() {
			w.avail()
			w.all(tasks, "after the storage was opened again")
		}) {
			return
		}
	}
	if len(c.viol) > 0 {
		return
	}
	nodrain := w.cap > 500 && c.rng.Pct(80)
	// whatever is free can be allocated, and nothing else
	w.p.do("drain", time.Minute, func() {
		n := w.b.Available()
		got := map[int]bool{}
		if nodrain {
			w.avail()
			return
		}
		for len(got) <= w.cap {
			idx, ok := w.direct()
			if !ok {
				break
			}
			if got[idx] || w.held[idx] != nil && !w.wild {
				c.Fail("twice", "ArrangeBlock returns the block %d, which is in use", idx)
				return
			}
			got[idx] = true
		}
		if len(got) != n {
			c.Fail("available", "%d blocks could be allocated, %d were available", len(got), n)
		}
		tm, cap := sim.Tick(), w.cap
		w.ops = append(w.ops, &linOp{t0: tm, t1: tm, name: fmt.Sprintf("drain(%d)", len(got)), step: func(st string) []string {
			for i := 0; i < cap; i++ {
				if blkHas(st, i) == got[i] {
					return nil
				}
			}
			for i := range got {
				st = blkFlip(st, i)
			}
			return []string{st}
		}})
		w.avail()
		w.all(tasks, "when all the blocks are allocated")
	})
	w.p.noTasks("the calls have returned", 0)
	if len(c.viol) > 0 {
		return
	}
	if ok, sure, deepest := linearize("", w.ops, 100_000); !sure {
		c.Probe("lin-budget")
	} else if !ok {
		c.Fail("linearizability", "no order of the calls explains their results: %s", deepest)
	} else {
		c.Probe("linearizable")
	}
}

func (w *blkWorld) all(tasks []*blkTask, when string) {
	for _, t := range tasks {
		for _, h := range t.own {
			w.verify(h, when)
		}
	}
}

// crashed: the calls that were in progress have taken effect or not
func (w *blkWorld) crashed(tasks []*blkTask) {
	now := sim.Tick()
	for _, o := range w.ops {
		if o.t1 == linForever {
			o.t1 = now
			o.name += "(crash)"
		}
	}
	w.c.Probe("crash")
	for idx, h := range w.held {
		if h.freeing {
			delete(w.held, idx)
		}
	}
	w.p = newProc(w.c, "proc", w.disk)
}

func (w *blkWorld) closing(end int) {
	c := w.c
	buf := w.b.Bytes()
	if end == 3 {
		old := buf.Size()
		n := old + int64(4096*(1+c.rng.Intn(2)))
		g := buf.(interface{ Grow(int64) error })
		err := g.Grow(n)
		if err != nil && (!c.faults || len(c.p.Rates) == 0) {
			c.Fail("grow", "Grow from %d to %d bytes: %v", old, n, err)
		}
		if err == nil {
			old = n
			c.Probe("grown")
		} else {
			c.Probe("grow-failed")
		}
		if buf.Size() != old {
			c.Fail("grow", "after Grow (%v) the size is %d, not %d", err, buf.Size(), old)
		}
		// the blocks are where they were
		w.avail()
		for _, idx := range []int{0, w.cap - 1} {
			w.block(idx)
		}
		for idx := 0; idx < w.cap; idx++ {
			if h := w.held[idx]; h != nil {
				w.verify(h, "after the storage was enlarged")
			}
		}
		if err := g.Grow(old - 1); err == nil || buf.Size() != old {
			c.Fail("grow", "the storage was made smaller")
		}
	}
	if end == 1 || w.mem != nil {
		return
	}
	if err := w.b.Close(); err != nil && (!c.faults || len(c.p.Rates) == 0) {
		c.Fail("close", "Close: %v", err)
	}
	if _, err := w.b.ArrangeBlock(); err == nil {
		c.Fail("closed", "ArrangeBlock works after Close")
	}
	if err := w.b.FreeBlock(0); err == nil {
		c.Fail("closed", "FreeBlock works after Close")
	}
	if _, err := w.b.Block(0); err == nil {
		c.Fail("closed", "Block works after Close")
	}
}

func init() {
	register("blocks", []string{"C19"}, &scenario{gen: genBlocks, run: runBlocks})
	scnInfo["blocks"] = scnDesc{
		real:   []string{"golibs/container/bytes", "golibs/files.MMFile"},
		stub:   []string{"file system, file mapping (simulated, the pages are real memory shared by the mappings of a file)", "goroutine scheduler, locks, atomics (simulated)"},
		assume: []string{"a crash is the death of the process: what it has stored in the mapping survives"},
	}
}
