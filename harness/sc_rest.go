package main

import "github.com/solarisdb/solaris/zsim/sim"

// C23: the REST API. The workloads are those of the log and metadata scenarios; most calls go over REST (rest.go), the rest
// directly to the service, and the same oracles judge all answers together.

var restBases = []struct {
	prop string
	w    int
}{{"C01", 3}, {"C02", 1}, {"C04", 4}, {"C05", 4}, {"C06", 3}, {"C07", 1}, {"C10", 0}, {"C11", 5}}

func genRest(prop string, seed uint64, tier string) *Plan {
	r := sim.NewRng(hashSeed("rest", seed))
	n := 0
	for _, b := range restBases {
		n += b.w
	}
	k := r.Intn(n)
	for _, b := range restBases {
		if k -= b.w; k < 0 {
			p := scenarios[propScn[b.prop]].gen(b.prop, seed, tier)
			p.Prop = prop
			p.P["rest"] = sim.Pick(r, 30, 70, 100, 100)
			p.P["restbad"] = sim.Pick(r, 0, 0, 10)
			if p.P["many"] > 0 {
				p.P["rest"] = 0
			}
			return p
		}
	}
	panic("unreachable")
}

func init() {
	scenarios["rest"] = &scenario{gen: genRest}
	propScn["C23"] = "rest"
	scnInfo["rest"] = scnDesc{
		real:   []string{"pkg/api/rest with github.com/gin-gonic/gin, api/genpublic", "pkg/api", "pkg/storage/{cache,buntdb,logfs,chunkfs}", "golibs/{container,context,files,sss}"},
		stub:   []string{"HTTP connections (a request is a direct call of the real router, its answer is recorded)", "SQL database in part of the runs", "remote object store", "file system, file mapping, clocks, goroutine scheduler (simulated)"},
		assume: []string{"as for the log and metadata properties"},
	}
}
