// Package stime replaces the clock dependent part of package time
package stime

import (
	"time"

	"github.com/solarisdb/solaris/zsim/sim"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func Now() time.Time {
	sim.Enter()
	return sim.Now()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { sim.Sleep(d) }

// PBNow replaces timestamppb.Now
func PBNow() *timestamppb.Timestamp { return timestamppb.New(Now()) }

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	t  *sim.Timer
	nd *sim.Node
}

func (t *Timer) start(d time.Duration) {
	nd := sim.CurNode()
	t.nd = nd
	t.t = sim.AddTimer(d, nd, func() {
		if t.f != nil {
			sim.GoNamed("timer", nd, t.f)
			return
		}
		sim.TrySend(t.c, sim.Now())
	})
}

func NewTimer(d time.Duration) *Timer {
	sim.Enter()
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	sim.Enter()
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	sim.Enter()
	return t.t.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	sim.Enter()
	r := t.t.Stop()
	t.start(d)
	return r
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	t    *sim.Timer
	nd   *sim.Node
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	sim.Enter()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, nd: sim.CurNode()}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = sim.AddTimer(t.d, t.nd, func() {
		sim.TrySend(t.c, sim.Now())
		if !t.stop {
			t.arm()
		}
	})
}

func (t *Ticker) Stop() {
	sim.Enter()
	t.stop = true
	t.t.Stop()
}

func (t *Ticker) Reset(d time.Duration) {
	sim.Enter()
	t.t.Stop()
	t.stop = false
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
