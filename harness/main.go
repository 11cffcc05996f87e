package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/solarisdb/solaris/golibs/logging"
	"github.com/solarisdb/solaris/zsim/sim"
)

// ReplayFile is what reproduces a violation
type ReplayFile struct {
	Property  string     `json:"property"`
	Violation Violation  `json:"violation"`
	Seed      uint64     `json:"seed"`
	Hash      string     `json:"eventHash"`
	Steps     int64      `json:"steps"`
	Plan      *Plan      `json:"plan"`
	Trace     *sim.Trace `json:"trace"`
	Note      string     `json:"note"`
}

// wmsg is a line a worker prints
type wmsg struct {
	Seed    uint64           `json:"seed"`
	Viol    []Violation      `json:"viol,omitempty"`
	Harness string           `json:"harness,omitempty"`
	Steps   int64            `json:"steps"`
	Switch  int64            `json:"switches"`
	SimNS   int64            `json:"simNs"`
	Hash    uint64           `json:"hash"`
	Sched   uint64           `json:"sched"`
	Faults  map[string]int64 `json:"faults,omitempty"`
	Ops     map[string]int64 `json:"ops,omitempty"`
	Probes  map[string]int64 `json:"probes,omitempty"`
	Clip    string           `json:"clip,omitempty"`
	Crashes int64            `json:"crashes,omitempty"`
	Done    bool             `json:"done,omitempty"`
	WallUS  int64            `json:"us"`
	Recheck bool             `json:"recheck,omitempty"`
}

func genPlan(prop string, seed uint64, tier string) *Plan {
	scn := propScn[prop]
	if scn == "" {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	return scenarios[scn].gen(prop, seed, tier)
}

func main() {
	logging.SetConfig(logging.Config{NewLoggerF: func(string) logging.Logger { return nullLogger{} }, SetLevelF: func(logging.Level) {}, GetLevelF: func() logging.Level { return logging.WARN }})
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1500 << 20) // collect more often beyond it
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim.bin check|worker|one|replay|min ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	n := fs.Int("n", 1, "number of runs")
	from := fs.Uint64("from", 0, "first run number")
	stride := fs.Uint64("stride", 1, "distance of run numbers")
	tier := fs.String("tier", "quick", "tier")
	secs := fs.Float64("secs", 30, "time budget in seconds")
	workers := fs.Int("workers", 8, "number of worker processes")
	file := fs.String("file", "", "replay file")
	out := fs.String("out", "", "output file")
	evid := fs.String("evidence", "", "evidence directory")
	known := fs.String("known", "", "known findings file")
	verbose := fs.Bool("v", false, "print the event log")
	_ = fs.Parse(os.Args[2:])
	switch cmd {
	case "worker":
		worker(*prop, *seed, *from, *stride, *tier, *secs)
	case "one":
		for i := 0; i < *n; i++ {
			sd := *seed + uint64(i)
			p := genPlan(*prop, sd, *tier)
			if *verbose {
				fmt.Println(mustJSON(p))
			}
			t := time.Now()
			r := Execute(p, nil, *verbose)
			if *verbose || os.Getenv("ZTRACE") != "" {
				for _, l := range r.Log {
					fmt.Println(l)
				}
			}
			fmt.Printf("seed %d end=%s %s steps=%d switches=%d sim=%v hash=%x crashes=%d viol=%v harness=%q clip=%q wall=%v\n", sd, r.End, clip(r.EndInfo, 300), r.Stats.Steps, r.Stats.Switches, r.Stats.SimTime, r.Stats.Hash, r.Stats.Crashes, r.Viol, r.Harness, r.ClipNote, time.Since(t).Round(time.Millisecond))
			if *verbose {
				fmt.Println("faults", r.Stats.Faults, "ops", r.Stats.Ops, "probes", r.Probes)
			}
		}
	case "min":
		os.Exit(minimise(*file, *out, *secs))
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "check":
		os.Exit(check(*prop, *seed, *tier, *secs, *workers, *evid, *known))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// nullLogger formats the messages, as their arguments are code under test, and drops them
type nullLogger struct{}

func (nullLogger) put(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if len(m) > 0 {
		sim.Note(m)
	}
}
func (l nullLogger) Warnf(f string, a ...interface{})  { l.put(f, a...) }
func (l nullLogger) Infof(f string, a ...interface{})  { l.put(f, a...) }
func (l nullLogger) Errorf(f string, a ...interface{}) { l.put("ERROR "+f, a...) }
func (nullLogger) Debugf(f string, a ...interface{})   {}
func (nullLogger) Tracef(f string, a ...interface{})   {}

func runSeed(base uint64, i uint64) uint64 {
	return hashSeed("run"+strconv.FormatUint(i, 10), base) >> 1
}

func worker(prop string, base, from, stride uint64, tier string, secs float64) {
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := from; time.Now().Before(end); i += stride {
		sd := runSeed(base, i)
		t := time.Now()
		p := genPlan(prop, sd, tier)
		r := Execute(p, nil, false)
		m := wmsg{Seed: sd, Viol: r.Viol, Harness: r.Harness, Steps: r.Stats.Steps, Switch: r.Stats.Switches, SimNS: int64(r.Stats.SimTime), Hash: r.Stats.Hash,
			Sched: r.Stats.SchedHash, Faults: r.Stats.Faults, Ops: r.Stats.Ops, Probes: r.Probes, Clip: r.ClipNote, Crashes: r.Stats.Crashes, WallUS: time.Since(t).Microseconds()}
		if i/stride%64 == 5 && len(r.Viol) == 0 {
			// determinism: the same seed gives the same execution
			r2 := Execute(genPlan(prop, sd, tier), nil, false)
			m.Recheck = true
			if r2.Stats.Hash != r.Stats.Hash || r2.Stats.Steps != r.Stats.Steps {
				m.Harness = fmt.Sprintf("the run is not deterministic: %x/%d and %x/%d", r.Stats.Hash, r.Stats.Steps, r2.Stats.Hash, r2.Stats.Steps)
			}
		}
		fmt.Fprintln(w, mustJSON(m))
		w.Flush()
		if len(r.Viol) > 0 || m.Harness != "" {
			return
		}
		var ms runtime.MemStats
		if i/stride%50 == 49 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 1500<<20 {
				runtime.GC()
			}
		}
	}
}

func loadReplay(file string) (*ReplayFile, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var rf ReplayFile
	return &rf, json.Unmarshal(b, &rf)
}

func replay(file string, verbose bool) int {
	rf, err := loadReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := Execute(rf.Plan, rf.Trace, verbose)
	if verbose {
		for _, l := range r.Log {
			fmt.Println(l)
		}
	}
	if r.Harness != "" {
		fmt.Println("harness error:", r.Harness)
		return 2
	}
	for _, v := range r.Viol {
		fmt.Printf("%s: %s: %s\n", rf.Property, v.Class, v.Detail)
	}
	fmt.Printf("steps=%d hash=%x (recorded %s)\n", r.Stats.Steps, r.Stats.Hash, rf.Hash)
	if len(r.Viol) == 0 {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

// hasClass reports the violation of the class if the result has it
func hasClass(r *Result, class string) *Violation {
	if r.Harness != "" {
		return nil
	}
	for i := range r.Viol {
		if r.Viol[i].Class == class {
			return &r.Viol[i]
		}
	}
	return nil
}

func clonePlan(p *Plan) *Plan {
	var q Plan
	if err := json.Unmarshal([]byte(mustJSON(p)), &q); err != nil {
		panic(err)
	}
	return &q
}

// minimise shrinks the plan of the replay file (plan + class only) and writes the complete one
func minimise(file, out string, secs float64) int {
	rf, err := loadReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	class := rf.Violation.Class
	best := clonePlan(rf.Plan)
	r := Execute(clonePlan(best), nil, false)
	v := hasClass(r, class)
	if v == nil {
		fmt.Fprintf(os.Stderr, "the violation %s does not show again: %v %s\n", class, r.Viol, r.Harness)
		return 3
	}
	bestR := r
	try := func(p *Plan) bool {
		// a smaller plan shifts the schedule, so some schedules are tried
		for k := uint64(0); k < 6; k++ {
			if time.Now().After(end) {
				return false
			}
			q := clonePlan(p)
			if k > 0 {
				q.SchedSeed = best.SchedSeed + k
			}
			r := Execute(clonePlan(q), nil, false)
			if hasClass(r, class) != nil {
				best, bestR = q, r
				return true
			}
		}
		return false
	}
	// whole actors, then chunks of operations, then the final operations, then fault kinds
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for i := 1; i < len(best.Actors); i++ {
			if len(best.Actors[i]) == 0 {
				continue
			}
			q := clonePlan(best)
			q.Actors[i] = []Op{}
			if try(q) {
				changed = true
			}
		}
		for i := 0; i < len(best.Actors); i++ {
			for sz := (len(best.Actors[i]) + 1) / 2; sz >= 1; sz /= 2 {
				for j := 0; j+sz <= len(best.Actors[i]); {
					q := clonePlan(best)
					q.Actors[i] = append(append([]Op{}, q.Actors[i][:j]...), q.Actors[i][j+sz:]...)
					if try(q) {
						changed = true
					} else {
						j += sz
					}
				}
			}
		}
		for j := 0; j < len(best.Final); {
			q := clonePlan(best)
			q.Final = append(append([]Op{}, q.Final[:j]...), q.Final[j+1:]...)
			if try(q) {
				changed = true
			} else {
				j++
			}
		}
		for _, k := range sortedKeys(best.Rates) {
			q := clonePlan(best)
			delete(q.Rates, k)
			if try(q) {
				changed = true
			}
		}
		for i := range best.Actors {
			for j := range best.Actors[i] {
				if o := best.Actors[i][j]; o.K == "app" && o.B > 1 {
					q := clonePlan(best)
					q.Actors[i][j].B = 1
					if try(q) {
						changed = true
					}
				}
			}
		}
	}
	// the trace: drop preemptions and faults
	tr := bestR.Trace
	exp := Execute(clonePlan(best), cloneTrace(&tr), false)
	res := &ReplayFile{Property: best.Prop, Seed: rf.Seed, Plan: best}
	if hasClass(exp, class) != nil {
		cur, curR := cloneTrace(&tr), exp
		tryT := func(t *sim.Trace) bool {
			if time.Now().After(end) {
				return false
			}
			r := Execute(clonePlan(best), cloneTrace(t), false)
			if hasClass(r, class) != nil {
				cur, curR = t, r
				return true
			}
			return false
		}
		less := func(keys func(t *sim.Trace) []string, del func(t *sim.Trace, k string)) {
			ks := keys(cur)
			for sz := (len(ks) + 1) / 2; sz >= 1; sz /= 2 {
				for j := 0; j+sz <= len(ks); {
					t := cloneTrace(cur)
					for _, k := range ks[j : j+sz] {
						del(t, k)
					}
					if tryT(t) {
						ks = append(ks[:j:j], ks[j+sz:]...)
					} else {
						j += sz
					}
					if time.Now().After(end) {
						return
					}
				}
			}
		}
		less(func(t *sim.Trace) []string {
			var r []string
			for k := range t.Sched {
				r = append(r, fmt.Sprintf("%020d", k))
			}
			sort.Strings(r)
			return r
		}, func(t *sim.Trace, k string) { n, _ := strconv.ParseInt(k, 10, 64); delete(t.Sched, n) })
		less(func(t *sim.Trace) []string { return sortedKeys(t.Faults) }, func(t *sim.Trace, k string) { delete(t.Faults, k) })
		res.Trace, bestR = cur, curR
		res.Note = fmt.Sprintf("explicit schedule: %d scheduling decisions differ from run-to-block, %d faults", len(cur.Sched), len(cur.Faults))
	} else {
		res.Note = "the schedule is given by the seed of the plan"
	}
	res.Violation = *hasClass(bestR, class)
	res.Hash, res.Steps = fmt.Sprintf("%x", bestR.Stats.Hash), bestR.Stats.Steps
	b, _ := json.MarshalIndent(res, "", " ")
	if err := os.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func cloneTrace(t *sim.Trace) *sim.Trace {
	var q sim.Trace
	if err := json.Unmarshal([]byte(mustJSON(t)), &q); err != nil {
		panic(err)
	}
	return &q
}

// finding is a line of the known findings file
type finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	Note     string `json:"note"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(file string) []finding {
	var res []finding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Fixed == "" {
			res = append(res, f)
		}
	}
	return res
}

func check(prop string, seed uint64, tier string, secs float64, workers int, evid, known string) int {
	start := time.Now()
	self, _ := os.Executable()
	if propScn[prop] == "" {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	findings := loadKnown(known)
	var mu sync.Mutex
	var violMsg []wmsg
	var harness []string
	agg := wmsg{Faults: map[string]int64{}, Ops: map[string]int64{}, Probes: map[string]int64{}}
	unsup, unsupText := int64(0), ""
	runs, trivial, clipped, rechecks := int64(0), int64(0), int64(0), int64(0)
	hashes := map[uint64]bool{}
	seeds := []uint64{}
	stop := make(chan struct{})
	var once sync.Once
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			next := uint64(k)
			for {
				left := secs - time.Since(start).Seconds()
				select {
				case <-stop:
					return
				default:
				}
				if left <= 0.2 {
					return
				}
				c := exec.Command(self, "worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(next), "-stride", fmt.Sprint(workers), "-tier", tier, "-secs", fmt.Sprintf("%.1f", left))
				c.Env = append(os.Environ(), "GOMAXPROCS=1")
				var errBuf strings.Builder
				c.Stderr = &errBuf
				o, err := c.StdoutPipe()
				if err != nil {
					return
				}
				if err := c.Start(); err != nil {
					mu.Lock()
					harness = append(harness, err.Error())
					mu.Unlock()
					return
				}
				go func() {
					<-stop
					_ = c.Process.Kill()
				}()
				// a single run must not take longer than this
				last := time.Now()
				var lmu sync.Mutex
				hungRun := false
				dog := time.AfterFunc(1, func() {})
				var tick func()
				tick = func() {
					lmu.Lock()
					old := time.Since(last) > 180*time.Second
					lmu.Unlock()
					if old {
						hungRun = true
						_ = c.Process.Kill()
						return
					}
					dog.Reset(time.Second)
				}
				dog = time.AfterFunc(time.Second, func() { tick() })
				sc := bufio.NewScanner(o)
				sc.Buffer(make([]byte, 1<<20), 1<<26)
				bad := false
				for sc.Scan() {
					var m wmsg
					if json.Unmarshal(sc.Bytes(), &m) != nil {
						continue
					}
					lmu.Lock()
					last = time.Now()
					lmu.Unlock()
					next += uint64(workers)
					mu.Lock()
					runs++
					agg.Steps += m.Steps
					agg.Switch += m.Switch
					agg.SimNS += m.SimNS
					agg.Crashes += m.Crashes
					for k, v := range m.Faults {
						agg.Faults[k] += v
					}
					for k, v := range m.Ops {
						agg.Ops[k] += v
					}
					for k, v := range m.Probes {
						agg.Probes[k] += v
					}
					if m.Clip != "" {
						clipped++
						if strings.HasPrefix(m.Clip, unsupNote) {
							unsup++
							unsupText = m.Clip
						}
					}
					if m.Recheck {
						rechecks++
					}
					if m.Switch < 5 {
						trivial++
					} else {
						hashes[m.Sched] = true
					}
					if len(seeds) < 8 {
						seeds = append(seeds, m.Seed)
					}
					if m.Harness != "" {
						harness = append(harness, fmt.Sprintf("seed %d: %s", m.Seed, m.Harness))
						bad = true
					}
					if len(m.Viol) > 0 {
						if kf := matchKnown(findings, prop, m.Viol); kf == nil {
							violMsg = append(violMsg, m)
							bad = true
						} else {
							agg.Probes["known:"+kf.Note]++
						}
					}
					mu.Unlock()
				}
				err = c.Wait()
				dog.Stop()
				if hungRun {
					mu.Lock()
					harness = append(harness, fmt.Sprintf("run %d of the worker did not end in time", next))
					mu.Unlock()
					bad = true
				} else if err != nil && !bad {
					select {
					case <-stop:
						return
					default:
					}
					mu.Lock()
					harness = append(harness, fmt.Sprintf("worker at run %d: %v: %s", next, err, clip(errBuf.String(), 3000)))
					mu.Unlock()
					bad = true
				}
				if bad {
					once.Do(func() { close(stop) })
					return
				}
			}
		}(k)
	}
	wg.Wait()
	once.Do(func() { close(stop) })
	code := 0
	nviol := 0
	var replayPath string
	for _, n := range sortedKeys(agg.Probes) {
		if strings.HasPrefix(n, "known:") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, n[6:])
		}
	}
	if len(violMsg) > 0 {
		sort.Slice(violMsg, func(i, j int) bool { return violMsg[i].Steps < violMsg[j].Steps })
		m := violMsg[0]
		nviol = len(violMsg)
		if evid == "" {
			evid = "."
		}
		_ = os.MkdirAll(evid, 0755)
		replayPath = filepath.Join(evid, fmt.Sprintf("replay-%s-%d.json", prop, m.Seed))
		raw := replayPath + ".raw"
		rf := &ReplayFile{Property: prop, Violation: m.Viol[0], Seed: m.Seed, Plan: genPlan(prop, m.Seed, tier), Hash: fmt.Sprintf("%x", m.Hash), Steps: m.Steps, Note: "not minimised"}
		b, _ := json.MarshalIndent(rf, "", " ")
		_ = os.WriteFile(raw, b, 0644)
		_ = os.WriteFile(replayPath, b, 0644)
		msecs := 60.0
		if tier != "quick" {
			msecs = 240
		}
		c := exec.Command(self, "min", "-file", raw, "-out", replayPath, "-secs", fmt.Sprint(msecs))
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		mo, err := c.CombinedOutput()
		_ = os.Remove(raw)
		if err != nil {
			fmt.Printf("minimisation: %v: %s\n", err, clip(string(mo), 2000))
		}
		// the file must reproduce it in a fresh process
		c = exec.Command(self, "replay", "-file", replayPath)
		ro, _ := c.CombinedOutput()
		fmt.Printf("seed %d: %s: %s\n", m.Seed, m.Viol[0].Class, m.Viol[0].Detail)
		fmt.Printf("replay (bash check.sh replay %s):\n%s", replayPath, clip(string(ro), 4000))
		if c.ProcessState.ExitCode() == 1 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
			code = 1
		} else {
			fmt.Printf("the violation of seed %d cannot be replayed (exit %d)\n", m.Seed, c.ProcessState.ExitCode())
			code = 2
		}
	} else if len(harness) > 0 {
		for _, h := range harness {
			fmt.Println("harness error:", h)
		}
		code = 2
	}
	if unsup > 0 {
		fmt.Printf("%d of %d runs were not judged: %s\n", unsup, runs, unsupText)
		if unsup*2 > runs && code == 0 {
			fmt.Println("harness error: too few runs were judged")
			code = 2
		}
	}
	if runs == 0 && code == 0 {
		fmt.Println("harness error: nothing was executed")
		code = 2
	}
	if evid != "" {
		writeEvidence(evid, prop, tier, seed, runs, trivial, clipped, rechecks, int64(nviol), agg, len(hashes), seeds, time.Since(start), code)
	}
	fmt.Printf("%s: %d runs, %d distinct interleavings, %d steps, %v simulated, %d crashes, faults %s, wall %.1fs, exit %d\n", prop, runs, len(hashes), agg.Steps, time.Duration(agg.SimNS).Round(time.Second), agg.Crashes, mustJSON(agg.Faults), time.Since(start).Seconds(), code)
	return code
}

// matchKnown: all violations of the run are listed
func matchKnown(fs []finding, prop string, vs []Violation) *finding {
	var last *finding
	for _, v := range vs {
		ok := false
		for i := range fs {
			if fs[i].Property == prop && fs[i].Class == v.Class && strings.Contains(v.Detail, fs[i].Match) {
				ok = true
				last = &fs[i]
			}
		}
		if !ok {
			return nil
		}
	}
	return last
}

func writeEvidence(dir, prop, tier string, seed uint64, runs, trivial, clipped, rechecks, nviol int64, agg wmsg, distinct int, seeds []uint64, wall time.Duration, code int) {
	_ = os.MkdirAll(dir, 0755)
	perHour := int64(0)
	if wall > 0 {
		perHour = int64(float64(runs) / wall.Hours())
	}
	var samples []any
	for _, s := range seeds {
		p := genPlan(prop, s, tier)
		ops := 0
		for _, a := range p.Actors {
			ops += len(a)
		}
		samples = append(samples, map[string]any{"seed": s, "actors": len(p.Actors), "operations": ops, "params": p.P, "faultRates": p.Rates})
	}
	info := scnInfo[propScn[prop]]
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": runs, "distinct_nontrivial": distinct,
			"rule":    "one evaluation is one simulated run of a seeded plan; a run is non-trivial if it has at least 5 task switches, and distinct by the hash of its schedule (sequence of task switches and the operations they happened at) and faults",
			"samples": samples,
			"runs":    runs, "seeds_per_hour": perHour, "simulated_seconds": agg.SimNS / 1e9, "simulated_steps": agg.Steps, "task_switches": agg.Switch,
			"faults_injected": agg.Faults, "crashes": agg.Crashes, "operations": agg.Ops, "reached": agg.Probes, "trivial_runs": trivial,
			"runs_cut_by_budget": clipped, "determinism_rechecks": rechecks, "distinct_interleavings": distinct,
			"real_components": info.real, "stub_components": info.stub,
		},
		"wall_s": wall.Seconds(), "violations": nviol, "assumptions": info.assume, "exit": code,
	}
	delete(ev, "exit")
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, prop+".json"), b, 0644)
}

type scnDesc struct {
	real, stub, assume []string
}

var scnInfo = map[string]scnDesc{
	"log": {
		real:   []string{"pkg/api (Service, mixer, iterators)", "pkg/storage/logfs", "pkg/storage/chunkfs (provider, chunk, accessor, replicator, scanner)", "pkg/storage/cache", "pkg/storage/buntdb with the tidwall/buntdb engine", "pkg/ql, pkg/intervals", "golibs/container/lru, golibs/files (mmap file, zip), golibs/context, golibs/ulidutils with oklog/ulid"},
		stub:   []string{"gRPC transport (direct calls with delays and lost answers)", "object store (in-memory sss.Storage with faults)", "SQL metadata store (in-memory, used instead of buntdb in a part of the runs)", "file system, mmap, clocks, timers, goroutine scheduler, random numbers (simulated)"},
		assume: []string{"a crash is the death of the server process: completed writes and stores to shared mappings survive it", "a store to a mapping updates the file modification time at the end of the task's time slice", "the metadata file of buntdb meets no I/O errors, only crashes"},
	},
}
