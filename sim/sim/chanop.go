package sim

import (
	"reflect"
	"unsafe"
)

type chanCore struct {
	cap     int
	buf     []any
	closed  bool
	sendq   []*waiter
	recvq   []*waiter
	slots   [][]uint32 // clocks of the buffer's slots
	sx, rx  int
	closeVC []uint32
}

// slot synchronises with the i-th slot of the buffer
func (c *chanCore) slot(i int, t *rthread) {
	if !Race || t == nil {
		return
	}
	if c.slots == nil {
		c.slots = make([][]uint32, c.cap)
	}
	i %= c.cap
	t.join(c.slots[i])
	c.slots[i] = t.snap()
	t.inc()
}

func pair(a, b *rthread) {
	if !Race || a == nil || b == nil {
		return
	}
	x := a.snap()
	a.join(b.vc)
	b.join(x)
	a.inc()
	b.inc()
}

func (c *chanCore) me() *rthread {
	if !Race || cur == nil {
		return nil
	}
	return S.race.me()
}

type selState struct {
	t    *Task
	done bool
	idx  int
	val  any
	ok   bool
}

type waiter struct {
	s      *selState
	idx    int
	val    any
	isSend bool
}

func core(p unsafe.Pointer, c int, keep any) *chanCore {
	s := S
	cc, ok := s.chans[uintptr(p)]
	if !ok {
		cc = &chanCore{cap: c}
		s.chans[uintptr(p)] = cc
		s.keep = append(s.keep, keep)
	}
	return cc
}

func ptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrS[T any](ch chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

func (c *chanCore) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.s.done {
			return w
		}
	}
	return nil
}

func (c *chanCore) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.s.done {
			return w
		}
	}
	return nil
}

func clean(q []*waiter) []*waiter {
	i := 0
	for _, w := range q {
		if !w.s.done && !w.s.t.killed {
			q[i] = w
			i++
		}
	}
	return q[:i]
}

func (w *waiter) complete(val any, ok bool) {
	w.s.done = true
	w.s.idx = w.idx
	w.s.val = val
	w.s.ok = ok
	Ready(w.s.t)
}

// trySend returns true if the value was taken
func (c *chanCore) trySend(v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	c.recvq = clean(c.recvq)
	if w := c.popRecv(); w != nil {
		if c.cap == 0 {
			pair(c.me(), w.s.t.rt)
		} else {
			c.slot(c.sx, c.me())
			c.slot(c.sx, w.s.t.rt)
			c.sx++
			c.rx++
		}
		w.complete(v, true)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.slot(c.sx, c.me())
		c.sx++
		return true
	}
	return false
}

func (c *chanCore) tryRecv() (any, bool, bool) {
	c.sendq = clean(c.sendq)
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		c.slot(c.rx, c.me())
		c.rx++
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			c.slot(c.sx, w.s.t.rt)
			c.sx++
			w.complete(nil, true)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		v := w.val
		pair(c.me(), w.s.t.rt)
		w.complete(nil, true)
		return v, true, true
	}
	if c.closed {
		if me := c.me(); me != nil {
			me.join(c.closeVC)
		}
		return nil, false, true
	}
	return nil, false, false
}

func (c *chanCore) close() {
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	if me := c.me(); me != nil {
		c.closeVC = me.snap()
		me.inc()
	}
	for _, w := range clean(c.recvq) {
		if w.s.t.rt != nil {
			w.s.t.rt.join(c.closeVC)
		}
		w.complete(nil, false)
	}
	c.recvq = nil
	for _, w := range clean(c.sendq) {
		w.s.ok = false
		w.s.done = true
		w.s.idx = -2 // the sender panics
		Ready(w.s.t)
	}
	c.sendq = nil
}

// Case is one case of a select statement
type Case interface {
	chanCase() (c *chanCore, isSend bool, v any)
	set(v any, ok bool)
	real() // used outside of the simulation only
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func W[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (r *RecvCase[T]) chanCase() (*chanCore, bool, any) {
	if r.ch == nil {
		return nil, false, nil
	}
	return core(ptr(r.ch), cap(r.ch), r.ch), false, nil
}
func (r *RecvCase[T]) set(v any, ok bool) { r.V, _ = v.(T); r.OK = ok }
func (r *RecvCase[T]) real()              { r.V, r.OK = <-r.ch }
func (w *SendCase[T]) chanCase() (*chanCore, bool, any) {
	if w.ch == nil {
		return nil, true, nil
	}
	return core(ptrS(w.ch), cap(w.ch), w.ch), true, w.v
}
func (w *SendCase[T]) set(v any, ok bool) {}
func (w *SendCase[T]) real()              { w.ch <- w.v }

// Select executes a select statement; it returns the number of the case or -1 for the default
func Select(hasDefault bool, cases ...Case) int {
	s := enter()
	if s == nil {
		if hasDefault {
			return -1
		}
		panic("sim: select outside of a simulation")
	}
	YS()
	var order []int
	if len(cases) > 1 {
		order = s.misc.Perm(len(cases))
	}
	cores := make([]*chanCore, len(cases))
	sends := make([]bool, len(cases))
	vals := make([]any, len(cases))
	for i, c := range cases {
		cores[i], sends[i], vals[i] = c.chanCase()
	}
	for k := range cases {
		i := k
		if order != nil {
			i = order[k]
		}
		c := cores[i]
		if c == nil {
			continue
		}
		if sends[i] {
			if c.trySend(vals[i]) {
				return i
			}
		} else if v, ok, done := c.tryRecv(); done {
			cases[i].set(v, ok)
			return i
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{t: cur}
	for i, c := range cores {
		if c == nil {
			continue
		}
		w := &waiter{s: st, idx: i, val: vals[i], isSend: sends[i]}
		if sends[i] {
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	for !st.done {
		if len(cases) == 1 {
			if sends[0] {
				Block("chan send", cores[0])
			} else {
				Block("chan receive", cores[0])
			}
		} else {
			Block("select", nil)
		}
	}
	if st.idx == -2 {
		panic("send on closed channel")
	}
	cases[st.idx].set(st.val, st.ok)
	return st.idx
}

// Send executes ch <- v
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if S == nil {
			ch <- v
			return
		}
		Select(false, &SendCase[T]{ch: ch, v: v})
	}
}

// Recv executes <-ch
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 executes v, ok := <-ch
func Recv2[T any](ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	r := &RecvCase[T]{ch: ch}
	Select(false, r)
	return r.V, r.OK
}

// Close executes close(ch)
func Close[T any](ch chan<- T) {
	s := enter()
	if s == nil {
		close(ch)
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	YS()
	core(ptrS(ch), cap(ch), ch).close()
}

// Len executes len(ch)
func Len[C any](ch C) int {
	v := reflect.ValueOf(ch)
	if S == nil {
		return v.Len()
	}
	if v.IsNil() {
		return 0
	}
	return len(core(v.UnsafePointer(), v.Cap(), v).buf)
}

// TrySend is a non-blocking send for the use in timers (it never yields)
func TrySend[T any](ch chan T, v T) bool {
	return core(ptrS[T](ch), cap(ch), ch).trySend(v)
}

// CloseNow closes without yielding, for the use in timers
func CloseNow[T any](ch chan T) {
	core(ptrS[T](ch), cap(ch), ch).close()
}

// Closed tells whether the channel was closed (for harness code)
func Closed[T any](ch <-chan T) bool {
	return core(ptr(ch), cap(ch), ch).closed
}

// Drained removes a buffered value without blocking, for Reset/Stop semantics of timers
func Drain[T any](ch <-chan T) {
	c := core(ptr(ch), cap(ch), ch)
	c.buf = nil
}

// Forever blocks the current task
func Forever() {
	enter()
	for {
		Block("select{}", nil)
	}
}

// SendNow sends if it is possible without blocking and without yielding
func SendNow[T any](ch chan<- T, v T) bool {
	return core(ptrS(ch), cap(ch), ch).trySend(v)
}

// reflCase is a case of reflect.Select
type reflCase struct {
	dir  reflect.SelectDir
	ch   reflect.Value
	send reflect.Value
	val  any
	ok   bool
}

func (r *reflCase) chanCase() (*chanCore, bool, any) {
	isSend := r.dir == reflect.SelectSend
	if !r.ch.IsValid() || r.ch.IsNil() {
		return nil, isSend, nil
	}
	var v any
	if isSend {
		v = r.send.Interface()
	}
	return core(r.ch.UnsafePointer(), r.ch.Cap(), r.ch), isSend, v
}
func (r *reflCase) set(v any, ok bool) { r.val, r.ok = v, ok }
func (r *reflCase) real()              { panic("sim: reflect.Select outside of a simulation") }

// ReflectSelect replaces reflect.Select
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	def := -1
	var cs []Case
	var idx []int
	for i, c := range cases {
		if c.Dir == reflect.SelectDefault {
			def = i
			continue
		}
		cs = append(cs, &reflCase{dir: c.Dir, ch: c.Chan, send: c.Send})
		idx = append(idx, i)
	}
	n := Select(def >= 0, cs...)
	if n < 0 {
		return def, reflect.Value{}, false
	}
	r := cs[n].(*reflCase)
	if r.dir == reflect.SelectSend {
		return idx[n], reflect.Value{}, false
	}
	v := reflect.New(r.ch.Type().Elem()).Elem()
	if r.val != nil {
		v.Set(reflect.ValueOf(r.val))
	}
	return idx[n], v, r.ok
}
