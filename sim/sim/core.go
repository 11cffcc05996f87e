// Package sim is the deterministic simulation runtime. Instrumented code runs as tasks: real
// goroutines of which exactly one runs at a time. Every statement of instrumented code calls Y, and
// every blocking operation is one of this package's, so a seeded scheduler decides each interleaving.
package sim

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

const noSimLeft = int64(1) << 60

var (
	left int64 = noSimLeft
	cur  *Task
	// S is the running simulation or nil
	S *Sim
)

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is a simulated goroutine
type Task struct {
	ID     int
	Name   string
	Node   *Node
	Daemon bool
	wake   chan struct{}
	state  uint8
	killed bool
	self   bool // killed by itself, nobody waits for the acknowledgement
	why    string
	whyObj any
	prio   int64
	since  int64 // step when blocked/switched in
	rt     *rthread
}

// Node is one incarnation of a simulated process (or the world: the clients and the harness)
type Node struct {
	Name    string
	Disk    any // *sos.Disk
	dead    bool
	steps   int64
	crashAt int64 // node steps when the crash is due, <0 if not armed
	// FSOps counts file operations done by the node, FSCrashAt is the operation (1-based) at which it dies
	FSOps     int64
	FSCrashAt int64
	// FSCrashMode tells when within that operation: 0 before, 1 after, 2 in the middle
	FSCrashMode int
	// NoFaults excludes the node from fault injection
	NoFaults bool
	stalled  bool
	wallOff  time.Duration
	salt     uint64
	globals  []any
	gvalid   bool
	onCrash  []func()
	Panics   []PanicInfo
	Crashed  bool // killed by a simulated crash or panic
	signals  []any
}

// PanicInfo describes a panic which ended a node
type PanicInfo struct {
	Task  string
	Value string
	Stack string
	Step  int64
}

// Config of one simulated run
type Config struct {
	Seed     uint64
	MaxSteps int64
	MaxTime  time.Duration
	// StepCost is the simulated duration of one step
	StepCost time.Duration
	// Gap is the mean number of steps between preemptions
	Gap int64
	// SyncPct is the probability (percent) to consider a preemption at a synchronisation operation
	SyncPct int
	// PCT selects the priority based scheduler
	PCT bool
	// JumpPct is the probability (percent) that a preemption point jumps to the next timer although tasks could run
	JumpPct int
	// Explicit, if not nil, replays decisions
	Explicit *Trace
	// Start is the simulated wall clock at the beginning
	Start time.Time
	// FaultPolicy decides about a fault in the random mode: it returns 0 for none
	FaultPolicy func(kind string, rng *Rng) int
	// FaultsOff tells that no fault may be injected now, whatever a trace says
	FaultsOff func() bool
	Verbose   bool
}

// Trace is the record of all decisions which differ from the defaults
type Trace struct {
	Sched  map[int64]int  `json:"sched"`  // step -> task ID to switch to; -1: jump to the next timer
	Faults map[string]int `json:"faults"` // kind#ordinal -> value
}

// Stats of a run
type Stats struct {
	Steps     int64
	Switches  int64
	Preempts  int64
	Tasks     int
	TimeJumps int64
	SimTime   time.Duration
	Faults    map[string]int64
	Ops       map[string]int64
	Crashes   int64
	Hash      uint64
	SchedHash uint64
}

type Sim struct {
	inTimer  bool // a timer callback is being executed: no preemption
	cfg      Config
	sched    *Rng
	fault    *Rng
	misc     *Rng
	tasks    []*Task
	runq     []*Task
	steps    int64 // folded steps
	quota    int64 // value of left at the last fold
	clock    int64 // simulated monotonic time (ns) at the last fold
	timers   timerHeap
	tseq     int64
	jumped   int64 // time skipped although tasks could run
	nextPre  int64
	lastSw   int64
	World    *Node
	nodes    []*Node
	chans    map[uintptr]*chanCore
	keep     []any
	done     chan struct{}
	killAck  chan struct{}
	ended    bool
	End      string // why the run ended: "done", "deadlock", "steps", "time", "panic: ..."
	EndInfo  string
	Trace    Trace
	faultOrd map[string]int
	St       Stats
	root     *Task
	onEnd    []func()
	prioLow  int64
	Log      []string
	ioSlots  map[string]int
	race     *raceState
}

func (s *Sim) Rng() *Rng { return s.misc }

// Run executes root as the first task of the world and returns when it ends
func Run(cfg Config, root func()) *Sim {
	if S != nil {
		panic("nested simulation")
	}
	debug.SetPanicOnFault(true)
	s := &Sim{cfg: cfg}
	if Race {
		s.race = newRaceState()
	}
	s.sched = NewRng(cfg.Seed*4 + 1)
	s.fault = NewRng(cfg.Seed*4 + 2)
	s.misc = NewRng(cfg.Seed*4 + 3)
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 5_000_000
	}
	if s.cfg.MaxTime == 0 {
		s.cfg.MaxTime = 24 * time.Hour
	}
	if s.cfg.StepCost == 0 {
		s.cfg.StepCost = 200
	}
	if s.cfg.Gap == 0 {
		s.cfg.Gap = 50
	}
	if s.cfg.Start.IsZero() {
		s.cfg.Start = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)
	}
	s.chans = make(map[uintptr]*chanCore)
	s.done = make(chan struct{}, 1)
	s.killAck = make(chan struct{})
	s.faultOrd = make(map[string]int)
	s.Trace = Trace{Sched: map[int64]int{}, Faults: map[string]int{}}
	s.St.Faults = map[string]int64{}
	s.St.Ops = map[string]int64{}
	s.St.Hash = 14695981039346656037
	s.St.SchedHash = 14695981039346656037
	s.World = &Node{Name: "world", crashAt: -1}
	s.nodes = append(s.nodes, s.World)
	S = s
	initGlobals(s.World)
	s.root = s.newTask("root", s.World, root)
	cur = s.root
	s.planPreempt()
	s.setLeft()
	s.root.wake <- struct{}{}
	<-s.done
	// tear down: every task that is still there ends
	s.ended = true
	for _, t := range s.tasks {
		s.kill1(t)
	}
	for i := len(s.onEnd) - 1; i >= 0; i-- {
		s.onEnd[i]()
	}
	s.St.Steps = s.steps
	s.St.Tasks = len(s.tasks)
	s.St.SimTime = time.Duration(s.clock)
	restoreGlobals()
	S = nil
	cur = nil
	left = noSimLeft
	return s
}

// OnEnd registers a cleanup executed outside of the simulation after all tasks are gone
func OnEnd(f func()) { S.onEnd = append(S.onEnd, f) }

func (s *Sim) finish(why, info string) {
	if s.End == "" {
		s.End, s.EndInfo = why, info
		s.done <- struct{}{}
	}
}

// ---- hash

func (s *Sim) mix(v uint64) {
	h := s.St.Hash
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= 1099511628211
		v >>= 8
	}
	s.St.Hash = h
}

func (s *Sim) mixs(v string) {
	h := s.St.Hash
	for i := 0; i < len(v); i++ {
		h ^= uint64(v[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	s.St.Hash = h
}

// Event adds v to the event log (its hash)
func Event(v string) {
	if S == nil {
		return
	}
	S.mixs(v)
	if S.cfg.Verbose {
		S.log(v)
	}
}

// Note adds v to the log of a verbose run
func Note(v string) {
	if S != nil && S.cfg.Verbose && cur != nil {
		S.log("# " + v)
	}
}

// Notef is Note with a format
func Notef(f string, a ...any) {
	if S != nil && S.cfg.Verbose && cur != nil {
		S.log("# " + fmt.Sprintf(f, a...))
	}
}

// log changes nothing but the log, so that a verbose run is the same as one which is not
func (s *Sim) log(v string) {
	used := s.quota - left
	if used < 0 {
		used = 0
	}
	s.Log = append(s.Log, fmt.Sprintf("%9d %12s [%d %s] %s", s.steps+used, time.Duration(s.clock+used*int64(s.cfg.StepCost)), cur.ID, cur.Name, v))
}

// ---- steps, clock

func (s *Sim) fold() {
	used := s.quota - left
	if used > 0 {
		s.steps += used
		s.clock += used * int64(s.cfg.StepCost)
		if cur != nil && cur.Node != nil {
			cur.Node.steps += used
		}
	}
	s.quota = left
}

func (s *Sim) setLeft() {
	n := s.nextPre - s.steps
	if len(s.timers) > 0 {
		d := (s.timers[0].at-s.clock)/int64(s.cfg.StepCost) + 1
		if d < n {
			n = d
		}
	}
	if cur != nil && cur.Node.crashAt >= 0 {
		if d := cur.Node.crashAt - cur.Node.steps; d < n {
			n = d
		}
	}
	if d := s.cfg.MaxSteps - s.steps; d < n {
		n = d
	}
	if d := s.lastSw + 100_000 - s.steps; d < n {
		n = d
	}
	if n < 0 {
		n = 0
	}
	left = n
	s.quota = n
}

func (s *Sim) planPreempt() {
	if ex := s.cfg.Explicit; ex != nil {
		// the next entry after the current step
		s.nextPre = noSimLeft
		i := sort.Search(len(exKeys), func(i int) bool { return exKeys[i] > s.steps })
		if i < len(exKeys) {
			s.nextPre = exKeys[i]
		}
		return
	}
	g := s.cfg.Gap
	// geometric-like gap with the mean g
	d := int64(1)
	switch s.sched.Intn(4) {
	case 0:
		d += int64(s.sched.Intn(int(g/4 + 1)))
	case 1, 2:
		d += int64(s.sched.Intn(int(g + 1)))
	case 3:
		d += int64(s.sched.Intn(int(g*4 + 1)))
	}
	s.nextPre = s.steps + d
}

var exKeys []int64

// SliceHook is called at the end of each time slice
var SliceHook func()

// WallOf returns the wall clock of the node; it does not count as a step
func WallOf(n *Node) time.Time { return S.cfg.Start.Add(time.Duration(S.clock) + n.wallOff) }

// PrepareExplicit must be called before Run if an explicit trace is used
func PrepareExplicit(t *Trace) {
	exKeys = exKeys[:0]
	if t == nil {
		return
	}
	for k := range t.Sched {
		exKeys = append(exKeys, k)
	}
	sort.Slice(exKeys, func(i, j int) bool { return exKeys[i] < exKeys[j] })
}

// Y is a preemption point
// Jumped returns the time that was skipped although tasks could run
func Jumped() time.Duration { return time.Duration(S.jumped) }

func Y() {
	left--
	if left < 0 {
		slow()
	}
}

func slow() {
	s := S
	if s == nil {
		left = noSimLeft
		return
	}
	if s.inTimer {
		s.fold()
		s.setLeft()
		return
	}
	if cur.killed {
		runtime.Goexit()
	}
	s.fold()
	s.check()
	if s.steps >= s.nextPre || s.steps-s.lastSw >= 100_000 {
		s.preempt()
	}
	s.setLeft()
}

// check handles what is due at the current step: the end of the budget, a crash, timers
func (s *Sim) check() {
	t := cur
	if s.steps >= s.cfg.MaxSteps || (s.race != nil && s.race.cells > raceCells) {
		s.fatal("steps", "")
	}
	if s.clock >= int64(s.cfg.MaxTime) {
		s.fatal("time", "")
	}
	if n := t.Node; n.crashAt >= 0 && n.steps >= n.crashAt && !n.dead {
		n.crashAt = -1
		s.crash(n, "step")
	}
	for len(s.timers) > 0 && s.timers[0].at <= s.clock {
		s.fireTimer()
	}
}

// fatal ends the run from within a task
func (s *Sim) fatal(why, info string) {
	t := cur
	s.finish(why, info)
	<-t.wake
	runtime.Goexit()
}

func enter() *Sim {
	s := S
	if s != nil && cur.killed && !s.inTimer {
		runtime.Goexit()
	}
	return s
}

// Enter is called by the simulated primitives of the sibling packages
func Enter() *Sim { return enter() }

func (s *Sim) preempt() {
	t := cur
	if ex := s.cfg.Explicit; ex != nil {
		v, ok := ex.Sched[s.steps]
		s.planPreempt()
		if ok && v == -1 {
			if s.canJump() {
				s.jump()
			}
			return
		}
		if ok {
			if n := s.byID(v); n != nil && s.eligible(n) {
				s.Trace.Sched[s.steps] = v
				s.St.Preempts++
				s.switchTo(n)
				return
			}
		}
		if s.steps-s.lastSw >= 100_000 {
			s.forced()
		}
		return
	}
	s.planPreempt()
	if s.cfg.JumpPct > 0 && s.sched.Intn(1000) < s.cfg.JumpPct && s.canJump() {
		s.jump()
		return
	}
	if s.steps-s.lastSw >= 100_000 {
		s.forced()
		return
	}
	n := s.pick(true)
	if n != nil && n != t {
		s.Trace.Sched[s.steps] = n.ID
		s.St.Preempts++
		s.switchTo(n)
	}
}

// forced switches to the next task in the ring to be fair to the others
func (s *Sim) forced() {
	t := cur
	s.lastSw = s.steps
	n := s.nextRing(t.ID)
	if n != nil && n != t {
		s.switchTo(n)
	}
}

func (s *Sim) nextRing(id int) *Task {
	var best, low *Task
	for _, x := range s.runq {
		if !s.eligible(x) {
			continue
		}
		if x.ID > id && (best == nil || x.ID < best.ID) {
			best = x
		}
		if low == nil || x.ID < low.ID {
			low = x
		}
	}
	if best == nil {
		return low
	}
	return best
}

// canJump: the next timer is not too far away
func (s *Sim) canJump() bool {
	return len(s.timers) > 0 && s.timers[0].at-s.clock < int64(3*time.Second)
}

func (s *Sim) jump() {
	s.Trace.Sched[s.steps] = -1
	if d := s.timers[0].at - s.clock; d > 0 {
		s.jumped += d // before the timers are fired, they may ask for it
	}
	s.timeJump()
}

func (s *Sim) timeJump() {
	if len(s.timers) == 0 {
		return
	}
	if SliceHook != nil {
		SliceHook()
	}
	s.St.TimeJumps++
	if s.timers[0].at > s.clock {
		s.clock = s.timers[0].at
	}
	s.mix(uint64(s.clock))
	for len(s.timers) > 0 && s.timers[0].at <= s.clock {
		s.fireTimer()
	}
}

func (s *Sim) byID(id int) *Task {
	if id < 0 || id >= len(s.tasks) {
		return nil
	}
	return s.tasks[id]
}

func (s *Sim) eligible(t *Task) bool {
	return t.state == stRunnable && !t.Node.stalled
}

// pick selects a task to run. preempt tells that the current one could go on
func (s *Sim) pick(preempt bool) *Task {
	n := 0
	for _, t := range s.runq {
		if s.eligible(t) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if s.cfg.PCT {
		if preempt {
			// a change point: the current task becomes the least important one
			s.prioLow--
			cur.prio = s.prioLow
		}
		var best *Task
		for _, t := range s.runq {
			if s.eligible(t) && (best == nil || t.prio > best.prio) {
				best = t
			}
		}
		return best
	}
	k := s.sched.Intn(n)
	for _, t := range s.runq {
		if s.eligible(t) {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

func (s *Sim) switchTo(n *Task) {
	t := cur
	if n == t {
		return
	}
	s.fold()
	s.dispatch(n)
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

// dispatch makes n the running task; the caller must park or exit
func (s *Sim) dispatch(n *Task) {
	if SliceHook != nil {
		SliceHook()
	}
	s.lastSw = s.steps
	s.St.Switches++
	s.mix(uint64(s.steps)<<16 | uint64(n.ID))
	h := s.St.SchedHash
	h ^= uint64(n.ID) + 1
	h *= 1099511628211
	s.St.SchedHash = h
	if ztrace {
		s.Log = append(s.Log, fmt.Sprintf("SW %d %d -> %d h=%x %x", s.steps, cur.ID, n.ID, s.St.Hash, s.clock))
	}
	swapGlobals(cur.Node, n.Node)
	cur = n
	s.setLeft()
	n.wake <- struct{}{}
}

// YS is a preemption point at a synchronisation operation
func YS() {
	s := enter()
	if s == nil || s.inTimer {
		return
	}
	Y()
	if s.cfg.Explicit != nil || s.cfg.SyncPct == 0 {
		return
	}
	if s.sched.Intn(100) < s.cfg.SyncPct {
		s.fold()
		if n := s.pick(true); n != nil && n != cur {
			s.Trace.Sched[s.steps] = n.ID
			s.St.Preempts++
			s.switchTo(n)
		}
		s.setLeft()
	}
}

// Block parks the current task until Ready is called for it
func Block(why string, obj any) {
	s := S
	t := cur
	if s.inTimer {
		panic("sim: a timer callback blocks: " + why)
	}
	t.state = stBlocked
	t.why, t.whyObj = why, obj
	s.unqueue(t)
	s.fold()
	t.since = s.steps
	s.next(t)
	t.why, t.whyObj = "", nil
	if t.killed {
		runtime.Goexit()
	}
	s.setLeft()
}

// next runs another task while t is blocked or done; it returns when t is resumed. If t is nil or done the
// function returns at once after the dispatch
func (s *Sim) next(t *Task) {
	for {
		n := s.choose()
		if n == nil {
			if len(s.timers) == 0 {
				s.finish("deadlock", s.dump())
				if t.state != stDone {
					<-t.wake
				}
				return
			}
			if SliceHook != nil {
				SliceHook()
			}
			if s.timers[0].at > s.clock {
				s.clock = s.timers[0].at
			}
			if s.clock >= int64(s.cfg.MaxTime) {
				s.finish("time", s.dump())
				if t.state != stDone {
					<-t.wake
				}
				return
			}
			s.fireTimer()
			continue
		}
		if n == t {
			s.lastSw = s.steps
			return
		}
		s.dispatch(n)
		if t.state != stDone {
			<-t.wake
		}
		return
	}
}

// choose picks the task after the current one has blocked or ended
func (s *Sim) choose() *Task {
	if ex := s.cfg.Explicit; ex != nil {
		var n *Task
		if v, ok := ex.Sched[s.steps]; ok && v >= 0 {
			n = s.byID(v)
			if n != nil && !s.eligible(n) {
				n = nil
			}
			if n != nil {
				s.Trace.Sched[s.steps] = v
			}
		}
		if n == nil {
			n = s.nextRing(cur.ID)
		}
		if s.nextPre <= s.steps {
			s.planPreempt()
		}
		return n
	}
	n := s.pick(false)
	if n != nil {
		if d := s.nextRing(cur.ID); d != n {
			s.Trace.Sched[s.steps] = n.ID
		}
	}
	return n
}

// Ready makes t runnable
func Ready(t *Task) {
	if t.state == stBlocked {
		t.state = stRunnable
		S.runq = append(S.runq, t)
	}
}

func (s *Sim) unqueue(t *Task) {
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			return
		}
	}
}

// Cur returns the current task
func Cur() *Task { return cur }

// CurNode returns the node of the current task
func CurNode() *Node { return cur.Node }

// Active tells whether a simulation is running
func Active() bool { return S != nil }

func (s *Sim) newTask(name string, n *Node, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Node: n, wake: make(chan struct{}, 1), state: stRunnable}
	t.prio = int64(s.sched.Intn(1 << 30))
	if Race {
		s.raceTask(t)
	}
	s.tasks = append(s.tasks, t)
	s.runq = append(s.runq, t)
	go func() {
		debug.SetPanicOnFault(true)
		<-t.wake
		if t.killed {
			t.state = stDone
			s.killAck <- struct{}{}
			return
		}
		normal := false
		defer func() {
			if !normal {
				if t.killed {
					t.state = stDone
					if t.self {
						s.fold()
						s.next(t)
					} else {
						s.killAck <- struct{}{}
					}
					return
				}
				if r := recover(); r != nil {
					s.fold()
					s.panicked(t, r, string(debug.Stack()))
					t.state = stDone
					s.unqueue(t)
					s.next(t)
					return
				}
				// runtime.Goexit of the user code: as a normal end
			}
			s.fold()
			if Race {
				x := rthread{vc: s.race.join}
				x.join(t.rt.vc)
				s.race.join = x.vc
			}
			t.state = stDone
			s.unqueue(t)
			if t == s.root {
				s.finish("done", "")
				return
			}
			s.next(t)
		}()
		f()
		normal = true
	}()
	return t
}

func (s *Sim) panicked(t *Task, r any, stack string) {
	pi := PanicInfo{Task: t.Name, Value: fmt.Sprint(r), Stack: trimStack(stack), Step: s.steps}
	if t.Node == s.World {
		s.finish("panic", fmt.Sprintf("%v\n%s", r, stack))
		return
	}
	t.Node.Panics = append(t.Node.Panics, pi)
	s.mixs("panic:" + pi.Value)
	t.killed = false
	s.crashOthers(t.Node, t)
}

func trimStack(st string) string {
	ls := strings.Split(st, "\n")
	// drop the frames up to the panic call
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") && i+2 < len(ls) {
			ls = ls[i+2:]
			break
		}
	}
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return volatileRe.ReplaceAllString(strings.Join(ls, "\n"), "")
}

// volatileRe matches what differs between two executions of one schedule
var volatileRe = regexp.MustCompile(`0x[0-9a-f]+|\?| in goroutine \d+|/tmp/[^/ ]*/`)

// Go starts a task in the node of the current one
func Go(f func()) {
	s := enter()
	if s == nil {
		return // goroutines of package initialisers outside of a simulation are not started
	}
	s.newTask("", cur.Node, f)
	YS()
}

// GoNamed starts a named task in the node
func GoNamed(name string, n *Node, f func()) *Task {
	s := enter()
	if n == nil {
		n = s.World
	}
	return s.newTask(name, n, f)
}

// kill1 ends the task t, which is not the current one
func (s *Sim) kill1(t *Task) {
	if t.state == stDone {
		return
	}
	prev := cur
	if t.state == stRunnable {
		s.unqueue(t)
	}
	t.killed = true
	cur = t
	q := s.quota
	l := left
	left = -1
	t.wake <- struct{}{}
	<-s.killAck
	t.state = stDone
	cur = prev
	s.quota = q
	left = l
}

// crash kills all the tasks of the node. If the current one belongs to the node, it does not return
func (s *Sim) crash(n *Node, why string) {
	if n.dead {
		return
	}
	s.mixs("crash " + n.Name + " " + why)
	s.St.Crashes++
	if s.cfg.Verbose {
		s.Log = append(s.Log, fmt.Sprintf("%9d %12s [%d %s] CRASH of %s by %s", s.steps, time.Duration(s.clock), cur.ID, cur.Name, n.Name, why))
	}
	n.Crashed = true
	me := cur
	s.crashOthers(n, me)
	if me.Node == n {
		me.killed, me.self = true, true
		s.unqueue(me)
		left = -1
		s.quota = -1
		runtime.Goexit()
	}
}

func (s *Sim) crashOthers(n *Node, me *Task) {
	n.dead = true
	n.Crashed = true
	for _, t := range s.tasks {
		if t.Node == n && t != me && t.state != stDone {
			s.kill1(t)
		}
	}
	// timers of the dead node
	for _, tm := range s.timers {
		if tm.node == n {
			tm.f = nil
		}
	}
	cb := n.onCrash
	n.onCrash = nil
	for _, f := range cb {
		f()
	}
}

// Crash kills the node from outside
func Crash(n *Node, why string) {
	s := enter()
	s.fold()
	s.crash(n, why)
	s.setLeft()
}

// NewNode creates a new process incarnation
func NewNode(name string, disk any) *Node {
	s := enter()
	n := &Node{Name: name, Disk: disk, crashAt: -1, salt: s.misc.U64()}
	s.nodes = append(s.nodes, n)
	initGlobals(n)
	return n
}

// Dead tells whether the incarnation is gone
func (n *Node) Dead() bool { return n.dead }

// Steps returns how many steps the node's tasks did
func (n *Node) Steps() int64 { S.fold(); S.setLeft(); return n.steps }

// ArmCrash lets the node die after the number of its own steps
func (n *Node) ArmCrash(after int64) {
	S.fold()
	n.crashAt = n.steps + after
	S.setLeft()
}

// Disarm removes planned crashes
func (n *Node) Disarm() { S.fold(); n.crashAt = -1; n.FSCrashAt = 0; S.setLeft() }

// OnCrash registers a callback for the death of the node
func (n *Node) OnCrash(f func()) { n.onCrash = append(n.onCrash, f) }

// Stall makes the node's tasks not eligible for d
func (n *Node) Stall(d time.Duration) {
	n.stalled = true
	Count("fault:stall")
	AddTimer(d, nil, func() { n.stalled = false })
	if cur.Node == n {
		s := S
		s.fold()
		if x := s.choose(); x != nil {
			s.switchTo(x)
		} else {
			Block("stall", nil)
		}
		s.setLeft()
	}
}

// CrashNow kills the current node from within
func CrashNow(why string) {
	s := enter()
	s.fold()
	s.crash(cur.Node, why)
}

// Count increments an operation counter of the run's statistics
func Count(k string) {
	if S != nil {
		if strings.HasPrefix(k, "fault:") {
			S.St.Faults[k[6:]]++
		} else {
			S.St.Ops[k]++
		}
	}
}

func (s *Sim) dump() string {
	var sb strings.Builder
	for _, t := range s.tasks {
		if t.state == stBlocked {
			fmt.Fprintf(&sb, "task %d %s/%s blocked on %s\n", t.ID, t.Node.Name, t.Name, t.why)
		}
	}
	return sb.String()
}

// Blocked returns descriptions of the tasks of the node which are blocked
func Blocked(n *Node) []string {
	var r []string
	for _, t := range S.tasks {
		if t.Node == n && t.state == stBlocked {
			r = append(r, fmt.Sprintf("%d %s: %s", t.ID, t.Name, t.why))
		}
	}
	return r
}

// Alive returns the number of tasks of the node that have not ended
func Alive(n *Node) int {
	c := 0
	for _, t := range S.tasks {
		if t.Node == n && t.state != stDone {
			c++
		}
	}
	return c
}

// AliveList describes the tasks of the node which have not ended
func AliveList(n *Node) []string {
	var r []string
	for _, t := range S.tasks {
		if t.Node == n && t.state != stDone {
			r = append(r, fmt.Sprintf("%d %s: %s", t.ID, t.Name, t.why))
		}
	}
	return r
}

// Fault asks whether a fault of the kind happens here; 0 means no
func Fault(kind string) int {
	s := enter()
	if s == nil {
		return 0
	}
	if cur.Node.NoFaults {
		return 0
	}
	s.faultOrd[kind]++
	key := fmt.Sprintf("%s#%d", kind, s.faultOrd[kind])
	v := 0
	if s.cfg.Explicit != nil {
		if s.cfg.FaultsOff == nil || !s.cfg.FaultsOff() {
			v = s.cfg.Explicit.Faults[key]
		}
	} else if s.cfg.FaultPolicy != nil {
		v = s.cfg.FaultPolicy(kind, s.fault)
	}
	if v != 0 {
		s.Trace.Faults[key] = v
		s.St.Faults[kind]++
		if s.cfg.Verbose {
			s.log(fmt.Sprintf("FAULT %s = %d", key, v))
		}
		s.mixs(key)
		s.mix(uint64(v))
	}
	return v
}

// SetFaultPolicy replaces the policy for the rest of the run
func SetFaultPolicy(f func(kind string, rng *Rng) int) { S.cfg.FaultPolicy = f }

// Steps returns the number of steps done so far
func Steps() int64 { s := S; s.fold(); s.setLeft(); return s.steps }

// Tick returns a strictly increasing number: the order of events in the run
func Tick() int64 {
	s := S
	s.tseq++
	return s.tseq
}

// Waiting tells whether the task is parked and alive
func (t *Task) Waiting() bool { return t.state == stBlocked && !t.killed }

var ztrace = os.Getenv("ZTRACE") != ""

// Atomic runs f without preemption; f must not block
func Atomic(f func()) {
	s := S
	if s == nil || s.inTimer {
		f()
		return
	}
	s.inTimer = true
	defer func() { s.inTimer = false }()
	f()
}
