// Package ssync replaces package sync in instrumented code
package ssync

import (
	"sync"
	"unsafe"

	"github.com/solarisdb/solaris/zsim/sim"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
	q      []*sim.Task
}

func (m *Mutex) Lock() {
	if sim.Enter() == nil {
		m.locked = true
		return
	}
	sim.YS()
	for first := true; m.locked; first = false {
		if first {
			m.q = append(m.q, sim.Cur())
		} else {
			m.q = append([]*sim.Task{sim.Cur()}, m.q...)
		}
		sim.Block("mutex", m)
	}
	m.locked = true
	sim.Acq(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if sim.Enter() != nil {
		sim.YS()
	}
	if m.locked {
		return false
	}
	m.locked = true
	sim.Acq(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if sim.Enter() == nil {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	sim.Rel(unsafe.Pointer(m))
	m.locked = false
	for len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		if t.Waiting() {
			sim.Ready(t)
			break
		}
	}
	sim.YS()
}

type rwWaiter struct {
	t       *sim.Task
	write   bool
	granted bool
}

type RWMutex struct {
	readers int
	writer  bool
	q       []*rwWaiter
}

func (m *RWMutex) grant() {
	for len(m.q) > 0 {
		w := m.q[0]
		if !w.t.Waiting() {
			m.q = m.q[1:]
			continue
		}
		if w.write {
			if m.readers > 0 || m.writer {
				return
			}
			m.writer = true
		} else {
			if m.writer {
				return
			}
			m.readers++
		}
		m.q = m.q[1:]
		w.granted = true
		sim.Ready(w.t)
	}
}

func (m *RWMutex) wait(write bool) {
	w := &rwWaiter{t: sim.Cur(), write: write}
	m.q = append(m.q, w)
	for !w.granted {
		if write {
			sim.Block("rwmutex write", m)
		} else {
			sim.Block("rwmutex read", m)
		}
	}
}

func (m *RWMutex) Lock() {
	if sim.Enter() == nil {
		m.writer = true
		return
	}
	sim.YS()
	if m.writer || m.readers > 0 || len(m.q) > 0 {
		m.grantDead()
		if m.writer || m.readers > 0 || len(m.q) > 0 {
			m.wait(true)
			m.acq(true)
			return
		}
	}
	m.writer = true
	m.acq(true)
}

// acq: a reader is ordered after the writers before it, a writer also after the readers
func (m *RWMutex) acq(write bool) {
	sim.Acq(unsafe.Pointer(m))
	if write {
		sim.Acq(unsafe.Pointer(&m.writer))
	}
}

// grantDead removes waiters that are gone
func (m *RWMutex) grantDead() {
	i := 0
	for _, w := range m.q {
		if w.t.Waiting() {
			m.q[i] = w
			i++
		}
	}
	m.q = m.q[:i]
}

func (m *RWMutex) TryLock() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.acq(true)
	return true
}

func (m *RWMutex) Unlock() {
	if sim.Enter() == nil {
		m.writer = false
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sim.Rel(unsafe.Pointer(m))
	m.writer = false
	// all the waiting readers go first, as in package sync
	var rest []*rwWaiter
	for _, w := range m.q {
		if !w.t.Waiting() {
			continue
		}
		if !w.write {
			m.readers++
			w.granted = true
			sim.Ready(w.t)
		} else {
			rest = append(rest, w)
		}
	}
	m.q = rest
	m.grant()
	sim.YS()
}

func (m *RWMutex) RLock() {
	if sim.Enter() == nil {
		m.readers++
		return
	}
	sim.YS()
	if m.writer || len(m.q) > 0 {
		m.grantDead()
		if m.writer || len(m.q) > 0 {
			m.wait(false)
			m.acq(false)
			return
		}
	}
	m.readers++
	m.acq(false)
}

func (m *RWMutex) TryRLock() bool {
	if m.writer || len(m.q) > 0 {
		return false
	}
	m.readers++
	m.acq(false)
	return true
}

func (m *RWMutex) RUnlock() {
	if sim.Enter() == nil {
		m.readers--
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sim.Rel(unsafe.Pointer(&m.writer))
	m.readers--
	m.grant()
	sim.YS()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n int
	q []*sim.Task
}

func (w *WaitGroup) Add(d int) {
	sim.Enter()
	if d < 0 {
		sim.Rel(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, t := range w.q {
			sim.Ready(t)
		}
		w.q = nil
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	if sim.Enter() == nil {
		return
	}
	sim.YS()
	for w.n > 0 {
		w.q = append(w.q, sim.Cur())
		sim.Block("waitgroup", w)
	}
	sim.Acq(unsafe.Pointer(w))
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		sim.Acq(unsafe.Pointer(&o.m))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T { o.Do(func() { r = f() }); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

type Cond struct {
	L Locker
	q []*sim.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sim.Enter()
	me := sim.Cur()
	c.q = append(c.q, me)
	c.L.Unlock()
	for c.has(me) {
		sim.Block("cond", c)
	}
	sim.Acq(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) has(t *sim.Task) bool {
	for _, x := range c.q {
		if x == t {
			return true
		}
	}
	return false
}

func (c *Cond) Signal() {
	sim.Enter()
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		sim.Rel(unsafe.Pointer(c))
		sim.Ready(t)
	}
	sim.YS()
}

func (c *Cond) Broadcast() {
	sim.Enter()
	sim.Rel(unsafe.Pointer(c))
	for _, t := range c.q {
		sim.Ready(t)
	}
	c.q = nil
	sim.YS()
}

// Pool keeps objects; it forgets some of them as the real one does
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	sim.Enter()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		sim.Acq(unsafe.Pointer(p))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	sim.Enter()
	if x != nil {
		sim.Rel(unsafe.Pointer(p))
		p.items = append(p.items, x)
	}
}

// Map is an ordered replacement of sync.Map
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	sim.YS()
	sim.AcqRel(unsafe.Pointer(m))
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { sim.YS(); sim.AcqRel(unsafe.Pointer(m)); m.store(k, v) }
func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sim.YS()
	sim.AcqRel(unsafe.Pointer(m))
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	sim.YS()
	sim.AcqRel(unsafe.Pointer(m))
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	sim.YS()
	sim.AcqRel(unsafe.Pointer(m))
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	sim.YS()
	sim.AcqRel(unsafe.Pointer(m))
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	sim.YS()
	sim.AcqRel(unsafe.Pointer(m))
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	sim.AcqRel(unsafe.Pointer(m))
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { m.m = nil; m.keys = nil }
