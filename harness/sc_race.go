package main

import (
	"sort"

	"github.com/solarisdb/solaris/zsim/sim"
)

// C21: no data races. The workloads are those of the other properties; the only judge is the happens-before detector of the
// simulation (sim/race.go), for which the rewriter has marked the accesses of the code under test (flag -race).

const raceProp = "C21"

// raceBases are the properties whose workloads are executed, with their weights
var raceBases = []struct {
	prop string
	w    int
}{
	{"C01", 3}, {"C02", 2}, {"C04", 1}, {"C05", 2}, {"C06", 1}, {"C07", 3}, {"C08", 3}, {"C09", 2}, {"C10", 3}, {"C11", 3}, {"C12", 3},
	{"C13", 3}, {"C14", 3}, {"C15", 3}, {"C16", 3}, {"C17", 3}, {"C18", 4}, {"C19", 3}, {"C20", 3}, {"C22", 2}, {"C24", 3},
}

func genRace(seed uint64, tier string) *Plan {
	r := sim.NewRng(hashSeed("race", seed))
	n := 0
	for _, b := range raceBases {
		n += b.w
	}
	k := r.Intn(n)
	for _, b := range raceBases {
		if k -= b.w; k < 0 {
			p := scenarios[propScn[b.prop]].gen(b.prop, seed, tier)
			p.Prop = raceProp
			return p
		}
	}
	panic("unreachable")
}

// raceViolations turns the reports of the detector into violations
func raceViolations(l []sim.RaceReport) []Violation {
	sort.Slice(l, func(i, j int) bool { return l[i].A+l[i].B < l[j].A+l[j].B })
	var v []Violation
	for _, x := range l {
		v = append(v, Violation{"race", x.Text})
		if len(v) == 8 {
			break
		}
	}
	return v
}

func init() {
	scenarios["race"] = &scenario{gen: func(prop string, seed uint64, tier string) *Plan { return genRace(seed, tier) }}
	propScn[raceProp] = "race"
	scnInfo["race"] = scnDesc{
		real: []string{"everything the other scenarios execute; accesses of pkg/api, pkg/storage/{logfs,chunkfs,cache,buntdb,postgres} and golibs/{chans,container,context,files,kvs,sss,sync,timeout} to struct fields, elements of slices and maps, package variables and captured variables are checked"},
		stub: []string{"as in the other scenarios; the stubs and third-party packages are not checked"},
		assume: []string{"two accesses race if no chain of the code's own synchronisation (locks, channels, atomics, wait groups, once, contexts, timers, go statements) orders them and one is a write",
			"the harness stops a server after its clients are done, which orders what they did before the shutdown where the scenario waits for them"},
	}
}
