// Package main is the simulation harness: it generates plans (seeded workloads and fault mixes), executes them
// in the simulator, judges the recorded histories and minimises what it finds.
package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/solarisdb/solaris/zsim/sim"
)

// Op is one step of an actor
type Op struct {
	K string `json:"k"`
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
	D int64  `json:"d,omitempty"`
	S string `json:"s,omitempty"`
	N int64  `json:"n,omitempty"` // identifies the operation; its pseudo-random choices depend on it
}

// Plan determines a run completely (together with the code)
type Plan struct {
	Prop      string         `json:"prop"`
	Scn       string         `json:"scn"`
	Seed      uint64         `json:"seed"`
	SchedSeed uint64         `json:"schedSeed,omitempty"`
	Gap       int64          `json:"gap"`
	SyncPct   int            `json:"syncPct"`
	PCT       bool           `json:"pct,omitempty"`
	JumpPct   int            `json:"jumpPct,omitempty"`
	StepCost  int64          `json:"stepCostNs"`
	MaxSteps  int64          `json:"maxSteps"`
	P         map[string]int `json:"params"`
	Rates     map[string]int `json:"faultRates,omitempty"` // kind -> per 10000
	Actors    [][]Op         `json:"actors"`
	Final     []Op           `json:"final,omitempty"`
}

// Violation is a property violation found in a run
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Result of a run
type Result struct {
	Viol     []Violation
	End      string
	EndInfo  string
	Stats    sim.Stats
	Trace    sim.Trace
	Probes   map[string]int64
	Trivial  bool
	Harness  string // a harness error
	Log      []string
	ClipNote string
}

// Ctx is what a scenario gets
type Ctx struct {
	p      *Plan
	rng    *sim.Rng
	viol   []Violation
	probes map[string]int64
	harn   string
	unsup  string // the code used a stub in a way the stub does not know: nothing is judged
	faults bool   // fault injection is switched on
}

func (c *Ctx) par(k string) int { return c.p.P[k] }

// Fail records a violation
func (c *Ctx) Fail(class, f string, a ...any) {
	if len(c.viol) < 8 {
		d := fmt.Sprintf(f, a...)
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		c.viol = append(c.viol, Violation{class, d})
		sim.Event("VIOLATION " + class + ": " + d)
	}
}

// Probe counts something interesting reached by the run
func (c *Ctx) Probe(k string) { c.probes[k]++ }

func (c *Ctx) HarnessError(f string, a ...any) {
	if c.harn == "" {
		c.harn = fmt.Sprintf(f, a...)
	}
}

const unsupNote = "unsupported: "

// Unsupported ends the judgement of the run: a stub cannot do what the code asks for
func (c *Ctx) Unsupported(f string, a ...any) {
	if c.unsup == "" {
		c.unsup = fmt.Sprintf(f, a...)
		sim.Event("UNSUPPORTED " + c.unsup)
	}
}

type scenario struct {
	gen func(prop string, seed uint64, tier string) *Plan
	run func(c *Ctx)
}

var scenarios = map[string]*scenario{}
var propScn = map[string]string{}

func register(name string, props []string, s *scenario) {
	scenarios[name] = s
	for _, p := range props {
		propScn[p] = name
	}
}

func hashSeed(s string, seed uint64) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return sim.NewRng(h ^ seed*0x9E3779B97F4A7C15).U64()
}

// basePlan draws the scheduler's parameters (swarm)
func basePlan(prop, scn string, seed uint64) (*Plan, *sim.Rng) {
	r := sim.NewRng(hashSeed(prop+"/"+scn, seed))
	p := &Plan{Prop: prop, Scn: scn, Seed: seed, P: map[string]int{}, Rates: map[string]int{}}
	switch r.Intn(6) {
	case 0:
		p.Gap, p.SyncPct = 2000, 30
	case 1:
		p.Gap, p.SyncPct = 300, 15
	case 2:
		p.Gap, p.SyncPct = 60, 10
	case 3:
		p.Gap, p.SyncPct = 15, 5
	case 4:
		p.Gap, p.SyncPct = 5000, 60
	case 5:
		p.Gap, p.SyncPct, p.PCT = sim.Pick(r, int64(200), 1000, 4000), sim.Pick(r, 0, 2), true
	}
	p.JumpPct = sim.Pick(r, 0, 0, 0, 5, 50)
	p.StepCost = sim.Pick(r, int64(100), 300, 1000)
	p.MaxSteps = 8_000_000
	return p, r
}

// Execute runs the plan; explicit is the trace to follow or nil
func Execute(p *Plan, explicit *sim.Trace, verbose bool) *Result {
	sc := scenarios[p.Scn]
	if sc == nil {
		return &Result{Harness: "unknown scenario " + p.Scn}
	}
	c := &Ctx{p: p, rng: sim.NewRng(hashSeed("run", p.Seed)), probes: map[string]int64{}, faults: true}
	kinds := map[string]int{}
	for k, v := range p.Rates {
		kinds[k] = v
	}
	cfg := sim.Config{
		Seed: hashSeed("sched", p.Seed+p.SchedSeed*1000003), MaxSteps: p.MaxSteps, Gap: p.Gap, SyncPct: p.SyncPct, PCT: p.PCT, JumpPct: p.JumpPct,
		StepCost: time.Duration(p.StepCost), Verbose: verbose, Explicit: explicit, MaxTime: 30 * 24 * time.Hour,
		FaultsOff: func() bool { return !c.faults },
		FaultPolicy: func(kind string, r *sim.Rng) int {
			if !c.faults {
				return 0
			}
			n := kinds[kind]
			if n == 0 {
				return 0
			}
			x := r.U64()
			if int(x%10000) >= n {
				return 0
			}
			return 1 + int((x>>32)%8)
		},
	}
	sim.PrepareExplicit(explicit)
	sim.Race = p.Prop == raceProp
	s := sim.Run(cfg, func() { sc.run(c) })
	res := &Result{Viol: c.viol, End: s.End, EndInfo: s.EndInfo, Stats: s.St, Trace: s.Trace, Probes: c.probes, Harness: c.harn, Log: s.Log}
	switch s.End {
	case "done":
	case "deadlock":
		res.Viol = append(res.Viol, Violation{"hang", "nothing can run any more: " + clip(s.EndInfo, 1200)})
	case "steps":
		if len(res.Viol) == 0 && p.P["endless"] > 0 {
			// the workload needs a small part of the budget
			res.Viol = append(res.Viol, Violation{"hang", "an operation does not end: " + clip(s.EndInfo, 1200)})
		} else if len(res.Viol) == 0 {
			res.ClipNote = "step budget exhausted"
		}
	case "time":
		if len(res.Viol) == 0 {
			res.ClipNote = "time budget exhausted"
		}
	case "panic":
		res.Harness = "panic in the harness: " + s.EndInfo
	default:
		res.Harness = "unexpected end: " + s.End
	}
	if sim.Race {
		// the other properties have checks of their own
		if s.RaceCount() == 0 && s.St.Steps > 2000 {
			res.Harness = "no access was checked: the code is not built with race marks"
		}
		res.Viol = raceViolations(s.Races())
	}
	if c.unsup != "" {
		res.Viol, res.ClipNote = nil, unsupNote+c.unsup
	}
	return res
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func inList(s string, l ...string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var _ = strings.Contains
