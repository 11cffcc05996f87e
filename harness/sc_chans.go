package main

import (
	"fmt"
	"time"

	"github.com/solarisdb/solaris/golibs/chans"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ---------------------------------------------------------------- C26: writing to one of many channels

type chWrite struct {
	v      uint64
	actor  int
	list   []chans.WriteDesc[uint64]
	chs    []int // the indexes of the channels, -1: nil
	dones  []int
	ended  bool
	writes int // the channel it was written to, -1: none
	t0, t1 int64
}

type chWorld struct {
	c       *Ctx
	chs     []chan uint64
	dones   []chan struct{}
	closed  []int64 // when the done channel was closed
	writes  []*chWrite
	got     map[uint64]int    // value -> channel
	last    map[[2]int]uint64 // channel, writer -> last value received
	reading map[int]int       // tasks that wait for a value of the channel
}

func genChans(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "chans", seed)
	p.MaxSteps = 300_000
	nch := sim.Pick(r, 1, 2, 2, 3, 4, 12)
	p.P["chs"] = nch
	for i := 0; i < nch; i++ {
		p.P[fmt.Sprint("cap", i)] = sim.Pick(r, 0, 0, 1, 2)
	}
	p.P["dones"] = sim.Pick(r, 1, 2, 4, 12)
	max := 2 + r.Intn(10)
	for a := sim.Pick(r, 1, 2, 3, 4); a > 0; a-- {
		var ops []Op
		for k := 1 + r.Intn(max); k > 0; k-- {
			ops = append(ops, Op{K: sim.Pick(r, "write", "write", "write", "write", "opened", "pause"), N: int64(r.U64() >> 16)})
		}
		p.Actors = append(p.Actors, ops)
	}
	for a := sim.Pick(r, 1, 1, 2, 3); a > 0; a-- { // those who read and close
		var ops []Op
		for k := 1 + r.Intn(2*max); k > 0; k-- {
			ops = append(ops, Op{K: sim.Pick(r, "read", "read", "read", "read", "try", "try", "pause", "close"), N: int64(r.U64() >> 16)})
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

func (w *chWorld) received(ch int, v uint64, buf bool) {
	if v == 0 {
		return
	}
	c := w.c
	if old, ok := w.got[v]; ok {
		c.Fail("twice", "the value %d was received from the channels %d and %d", v, old, ch)
		return
	}
	w.got[v] = ch
	var x *chWrite
	for _, y := range w.writes {
		if y.v == v {
			x = y
		}
	}
	if x == nil {
		c.Fail("unknown", "the value %d received from the channel %d was never written", v, ch)
		return
	}
	on := false
	for _, i := range x.chs {
		on = on || i == ch
	}
	if !on {
		c.Fail("channel", "the value %d was received from the channel %d, its writer listed %v", v, ch, x.chs)
	}
	if x.ended && x.writes != ch {
		c.Fail("channel", "the value %d was received from the channel %d, its writer was told %d (of %v)", v, ch, x.writes, x.chs)
	}
	k := [2]int{ch, x.actor}
	if buf && w.last[k] > v {
		c.Fail("order", "the value %d was received after %d from the channel %d, both are of the writer %d", v, w.last[k], ch, x.actor)
	}
	if w.last[k] < v {
		w.last[k] = v
	}
}

func (w *chWorld) exec(actor int, o Op) {
	c := w.c
	r := sim.NewRng(hashSeed("chans", c.p.Seed*1000+uint64(o.N)))
	switch o.K {
	case "pause":
		sim.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	case "write":
		x := &chWrite{v: uint64(len(w.writes) + 1), actor: actor, writes: -1}
		w.writes = append(w.writes, x)
		for k := sim.Pick(r, 1, 2, 2, 3, 3, 5, 9, 17); k > 0; k-- {
			var d chans.WriteDesc[uint64]
			ci, di := r.Intn(len(w.chs)), r.Intn(len(w.dones))
			if r.Pct(15) {
				ci = -1
			} else {
				d.WrtChan = w.chs[ci]
			}
			// the last one can always be given up, so that the call can end
			if r.Pct(15) && k > 1 {
				di = -1
			} else {
				d.DoneChan = w.dones[di]
			}
			x.list, x.chs, x.dones = append(x.list, d), append(x.chs, ci), append(x.dones, di)
		}
		x.t0 = sim.Tick()
		idx, ok := chans.WriteToManyWithControl(x.list, x.v)
		x.t1, x.ended = sim.Tick(), true
		if idx < 0 || idx >= len(x.list) {
			c.Fail("index", "the write of %d over %d channels returns the index %d", x.v, len(x.list), idx)
			return
		}
		if !ok {
			c.Probe("given-up")
			if di := x.dones[idx]; di < 0 || w.closed[di] == 0 {
				c.Fail("done", "the write of %d ends by the done channel %d of %v, which is not closed", x.v, idx, x.dones)
			}
			if ch, got := w.got[x.v]; got {
				c.Fail("phantom", "the value %d was received from the channel %d, but its write was given up", x.v, ch)
			}
			return
		}
		c.Probe("written")
		x.writes = x.chs[idx]
		if x.writes < 0 {
			c.Fail("nil", "the value %d was written to the nil channel %d of %v", x.v, idx, x.chs)
		}
		if ch, got := w.got[x.v]; got && ch != x.writes {
			c.Fail("channel", "the value %d was received from the channel %d, its writer was told %d (%d of %v)", x.v, ch, x.writes, idx, x.chs)
		}
	case "read":
		ci := r.Intn(len(w.chs))
		// an own wait that can be given up
		rc := sim.R(w.chs[ci])
		w.reading[ci]++
		n := sim.Select(false, rc, sim.R(w.dones[0]))
		w.reading[ci]--
		if n == 0 {
			w.received(ci, rc.V, false)
		}
	case "try":
		ci := r.Intn(len(w.chs))
		rc := sim.R(w.chs[ci])
		if sim.Select(true, rc) == 0 {
			w.received(ci, rc.V, false)
		}
	case "close":
		di := r.Intn(len(w.dones))
		if r.Pct(60) && w.closed[di] == 0 {
			w.closed[di] = sim.Tick()
			sim.CloseNow(w.dones[di])
		}
	case "opened":
		// the done channels carry no values, so nothing can be lost
		di := r.Intn(len(w.dones))
		before := w.closed[di] != 0
		open := chans.IsOpened(w.dones[di])
		if open && before {
			c.Fail("opened", "IsOpened is true for a channel that was closed before")
		}
		if !open && w.closed[di] == 0 {
			c.Fail("opened", "IsOpened is false for a channel that is open")
		}
		if chans.IsOpened[struct{}](nil) {
			c.Fail("opened", "IsOpened is true for nil")
		}
	}
}

func runChans(c *Ctx) {
	w := &chWorld{c: c, got: map[uint64]int{}, last: map[[2]int]uint64{}, reading: map[int]int{}}
	p := newProc(c, "proc", nil)
	for i := 0; i < c.par("chs"); i++ {
		w.chs = append(w.chs, make(chan uint64, c.par(fmt.Sprint("cap", i))))
	}
	for i := 0; i < c.par("dones"); i++ {
		w.dones = append(w.dones, make(chan struct{}))
		w.closed = append(w.closed, 0)
	}
	for ai, ops := range c.p.Actors {
		p.spawn(fmt.Sprintf("actor%d", ai), func() {
			for _, o := range ops {
				w.exec(ai, o)
				sim.YS()
			}
		})
	}
	// nothing moves any more: a write waits only for channels which nobody reads and which are not done
	sim.Sleep(time.Minute)
	for _, x := range w.writes {
		for i := range x.list {
			if x.ended {
				break
			}
			ci, di := x.chs[i], x.dones[i]
			if di >= 0 && w.closed[di] != 0 {
				c.Fail("stuck", "the write of %d over %v waits although its done channel %d is closed", x.v, x.chs, i)
			}
			if ci >= 0 && (w.reading[ci] > 0 || sim.Len(w.chs[ci]) < cap(w.chs[ci])) {
				c.Fail("stuck", "the write of %d over %v waits although the channel %d can take it", x.v, x.chs, ci)
			}
			c.Probe("waiting")
		}
	}
	// what nobody reads and nobody gives up is given up in the end
	for i := range w.dones {
		if w.closed[i] == 0 {
			w.closed[i] = sim.Tick()
			sim.CloseNow(w.dones[i])
		}
	}
	if !p.join(time.Minute) {
		return
	}
	p.do("end", time.Minute, func() {
		for ci, ch := range w.chs {
			for {
				rc := sim.R(ch)
				if sim.Select(true, rc) != 0 {
					break
				}
				w.received(ci, rc.V, true)
			}
		}
		for _, x := range w.writes {
			ch, got := w.got[x.v]
			switch {
			case !x.ended:
				c.Fail("stuck", "the write of %d has not ended although its done channels are closed", x.v)
			case x.writes >= 0 && !got:
				c.Fail("lost", "the value %d was written to the channel %d, but nobody can receive it", x.v, x.writes)
			case x.writes < 0 && got:
				c.Fail("phantom", "the value %d was received from the channel %d, but its write was given up", x.v, ch)
			}
		}
	})
}

func init() {
	register("chans", []string{"C26"}, &scenario{genChans, runChans})
	scnInfo["chans"] = scnDesc{
		real:   []string{"golibs/chans"},
		stub:   []string{"goroutine scheduler, channels, select and reflect.Select (simulated)"},
		assume: []string{"nobody else reads the done channels, and no channel that is written to is closed"},
	}
}
