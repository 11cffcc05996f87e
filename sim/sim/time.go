package sim

import (
	"container/heap"
	"time"
	"unsafe"
)

type Timer struct {
	at   int64
	seq  int64
	f    func()
	node *Node
	idx  int
	vc   []uint32
}

type timerHeap []*Timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx, h[j].idx = i, j }
func (h *timerHeap) Push(x any)   { t := x.(*Timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// AddTimer calls f (which must not block) after d. node may be nil
func AddTimer(d time.Duration, n *Node, f func()) *Timer {
	s := S
	s.fold()
	if d < 0 {
		d = 0
	}
	s.tseq++
	at := s.clock + int64(d)
	if at < s.clock {
		at = 1<<62 - 1
	}
	t := &Timer{at: at, seq: s.tseq, f: f, node: n}
	if Race && cur != nil {
		me := s.race.me()
		t.vc = me.snap()
		me.inc()
	}
	heap.Push(&s.timers, t)
	s.setLeft()
	return t
}

// Stop removes the timer and tells whether it was pending
func (t *Timer) Stop() bool {
	if t == nil || t.idx < 0 || t.f == nil || S == nil {
		return false
	}
	heap.Remove(&S.timers, t.idx)
	t.f = nil
	return true
}

func (s *Sim) fireTimer() {
	t := heap.Pop(&s.timers).(*Timer)
	f := t.f
	t.f = nil
	if f != nil && (t.node == nil || !t.node.dead) {
		if Race {
			s.race.timer = s.race.newTimerThread(t.vc)
		}
		s.inTimer = true
		f()
		s.inTimer = false
		if Race {
			s.race.timer = nil
		}
	}
}

// Mono returns the simulated monotonic time
func Mono() time.Duration {
	s := S
	if s == nil {
		return 0
	}
	s.fold()
	s.setLeft()
	return time.Duration(s.clock)
}

// Wall returns the wall clock of the current node
func Wall() time.Time {
	s := S
	if s == nil {
		return time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	s.fold()
	s.setLeft()
	return s.cfg.Start.Add(time.Duration(s.clock) + cur.Node.wallOff)
}

const (
	unixToInternal = 62135596800
	wallToInternal = 59453308800
)

// Now is time.Now in the current node: the wall clock with a monotonic reading
func Now() time.Time {
	w := Wall()
	if S == nil {
		return w
	}
	type tm struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}
	sec := w.Unix() + unixToInternal - wallToInternal
	var t time.Time
	p := (*tm)(unsafe.Pointer(&t))
	p.wall = 1<<63 | uint64(sec)<<30 | uint64(w.Nanosecond())
	p.ext = S.clock + 1
	p.loc = time.Local
	return t
}

// StepClock moves the wall clock of the node
func (n *Node) StepClock(d time.Duration) { n.wallOff += d; Count("fault:clock-step") }

// Salt is a per node random number
func (n *Node) Salt() uint64 { return n.salt }

// Sleep parks the current task for d
func Sleep(d time.Duration) {
	s := enter()
	if s == nil {
		return
	}
	if d <= 0 {
		YS()
		return
	}
	t := cur
	AddTimer(d, nil, func() { Ready(t) })
	Block("sleep", nil)
}
