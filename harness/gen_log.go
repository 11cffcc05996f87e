package main

import (
	"github.com/solarisdb/solaris/zsim/sim"
)

var fsKinds = []string{"fs.open", "fs.close", "fs.read", "fs.write", "fs.truncate", "fs.stat", "fs.readdir", "fs.remove", "fs.rename", "fs.mkdir", "fs.mmap"}
var remoteKinds = []string{"remote.get", "remote.getcut", "remote.put", "remote.putlost"}

// faultMix chooses some of the kinds with rates
func faultMix(p *Plan, r *sim.Rng, kinds []string, rates ...int) {
	for _, k := range kinds {
		if r.Pct(60) {
			p.Rates[k] = rates[r.Intn(len(rates))]
		}
	}
}

func genLog(prop string, seed uint64, tier string) *Plan {
	p, r := basePlan(prop, "log", seed)
	P := p.P
	P["bunt"] = r.Intn(2)
	P["maxSize"] = sim.Pick(r, 1, 2, 3, 4, 8, 16)
	P["newSize"] = r.Range(1, max1(1, P["maxSize"]/2))
	if r.Pct(15) {
		P["newSize"] = P["maxSize"]
	}
	P["growInc"] = sim.Pick(r, 1, 1, 2, 4)
	P["maxOpened"] = sim.Pick(r, 1, 2, 3, 10)
	P["maxLocks"] = sim.Pick(r, 1, 2, 4, 20)
	P["maxRecs"] = sim.Pick(r, 3, 7, 20, 1000)
	P["maxBunch"] = sim.Pick(r, 100, 700, 5000, 8<<20, 8<<20)
	P["nlogs"] = sim.Pick(r, 1, 2, 3, 4)
	P["strict"] = 1
	P["finalPage"] = sim.Pick(r, 1, 2, 5, 50, 1000)
	P["scanPeriod"] = sim.Pick(r, 20, 100, 500)
	P["syncThr"] = sim.Pick(r, 5, 50, 300)
	P["sweepMax"], P["sweepMin"] = 1<<30, 1<<30
	clients := r.Range(1, 4)
	opsPer := r.Range(4, 12)
	var no int64
	nextNo := func() int64 { no++; return no }
	wApp, wRead, wWalk, wCount, wDel, wCreate := 50, 20, 10, 10, 0, 0
	cancelPct, multiPct, condPct, startPct := 0, 20, 25, 40
	idle := false // the chunks get idle from time to time
	var chaos []Op
	sleepC := func(a, b int) { chaos = append(chaos, Op{K: "sleep", A: int64(r.Range(a, b)) * 1000}) }
	repl := func() { P["scanWorkers"] = sim.Pick(r, 1, 1, 2, 4) }
	sweep := func() {
		repl()
		P["sweepMax"] = sim.Pick(r, 0, 1, 2, 4)
		P["sweepMin"] = sim.Pick(r, 0, 0, 1)
		P["strict"] = 0
	}
	// missing has chunks moved to the remote store, which is slow or fails: they cannot be read from time to time
	missing := func() {
		sweep()
		P["maxOpened"] = sim.Pick(r, 1, 1, 2)
		P["maxSize"] = sim.Pick(r, 1, 2)
		P["newSize"] = 1
		P["maxBunch"] = sim.Pick(r, 100, 700, 5000)
		P["scanPeriod"] = sim.Pick(r, 1, 3, 10)
		P["syncThr"] = sim.Pick(r, 1, 5)
		p.Rates["remote.delay"] = sim.Pick(r, 2000, 6000)
		if r.Pct(60) {
			faultMix(p, r, remoteKinds, 300, 1500)
		}
	}
	crashOp := func() {
		o := Op{K: "crash", A: int64(r.Intn(3)), D: int64(r.Intn(30))}
		switch o.A {
		case 1:
			o.B = int64(sim.Pick(r, 50, 500, 3000, 20000, 100000))
			o.B = int64(r.Range(1, int(o.B)))
		case 2:
			o.B, o.C = int64(r.Range(1, sim.Pick(r, 4, 15, 50))), int64(r.Intn(3))
		}
		chaos = append(chaos, o)
	}
	size := func() int64 {
		return int64(sim.Pick(r, 0, 0, 1, 1, 2, 3, 4, 4, 6))
	}
	finals := r.Intn(4)
	switch prop {
	case "C01":
		switch r.Intn(4) {
		case 0:
			repl()
		case 1:
			sweep()
		}
		if r.Pct(20) {
			P["bunt"] = 0
			p.Rates["sql.delay"] = 2000
		}
	case "C02":
		P["strict"] = 0
		if r.Pct(70) {
			P["bunt"] = 1
		}
		P["finalRestart"] = r.Intn(2)
		for i := r.Range(1, 3); i > 0; i-- {
			sleepC(0, 40)
			crashOp()
			if r.Pct(30) {
				chaos = append(chaos, Op{K: "snap"})
			}
		}
		if r.Pct(25) {
			sweep()
		} else if r.Pct(30) {
			repl()
		}
		wApp = 80
		if r.Pct(25) {
			P["newSize2"] = r.Range(1, P["maxSize"])
		}
	case "C03":
		for i := r.Range(1, 6); i > 0; i-- {
			sleepC(0, 15)
			chaos = append(chaos, Op{K: "clock", A: int64(sim.Pick(r, -1, -2, -10, -500, -5000, -3600000, 1, 5, 100, 60000, 3600000))})
		}
		condPct, startPct = 0, 60
		finals = r.Range(1, 6)
		if r.Pct(25) {
			P["finalRestart"] = 1
			P["noOrder"] = 0
		}
	case "C04":
		wWalk, wRead = 40, 10
		finals = r.Range(3, 9)
		condPct, startPct = 50, 60
		multiPct = 10
		if r.Pct(20) {
			missing()
		}
	case "C05":
		wWalk, wRead = 30, 20
		P["nlogs"] = r.Range(2, 6)
		multiPct = 90
		finals = r.Range(2, 6)
		if r.Pct(30) {
			missing()
		} else if r.Pct(40) {
			P["strict"] = 0
			faultMix(p, r, []string{"fs.open", "fs.mmap", "fs.stat", "fs.truncate"}, 100, 500, 2000)
			P["maxOpened"] = sim.Pick(r, 1, 2)
		}
	case "C06":
		wCount = 40
		finals = r.Range(3, 9)
		condPct, startPct, multiPct = 45, 60, 40
		if r.Pct(25) {
			missing()
		} else if r.Pct(45) {
			P["strict"] = 0
			faultMix(p, r, []string{"fs.open", "fs.mmap", "fs.stat", "fs.truncate"}, 100, 500, 2000)
			P["maxOpened"] = sim.Pick(r, 1, 2)
		}
	case "C07":
		P["strict"] = 0
		faultMix(p, r, fsKinds, 50, 200, 1000)
		if r.Pct(50) {
			sweep()
			faultMix(p, r, remoteKinds, 300, 1500, 4000)
		} else if r.Pct(40) {
			repl()
			faultMix(p, r, remoteKinds, 300, 1500)
		}
		P["maxOpened"] = sim.Pick(r, 1, 1, 2, 3)
		P["newSize"] = 1
		if r.Pct(60) {
			P["maxSize"] = sim.Pick(r, 4, 8)
		}
		if r.Pct(30) {
			sleepC(5, 30)
			chaos = append(chaos, Op{K: "rdown", A: int64(r.Range(1, 300))})
		}
		P["finalRestart"] = sim.Pick(r, 0, 0, 1)
	case "C08":
		sweep()
		P["maxOpened"] = sim.Pick(r, 1, 1, 2, 4)
		P["scanPeriod"] = sim.Pick(r, 5, 20, 100)
		if r.Pct(70) {
			faultMix(p, r, remoteKinds, 300, 1500, 4000)
		}
		if r.Pct(30) {
			faultMix(p, r, fsKinds, 50, 300)
		}
		for i := r.Range(1, 4); i > 0; i-- {
			sleepC(1, 60)
			switch r.Intn(4) {
			case 0:
				crashOp()
			case 1:
				chaos = append(chaos, Op{K: "rdown", A: int64(r.Range(1, 200))})
			}
			chaos = append(chaos, Op{K: "snap"})
		}
		P["finalRestart"] = sim.Pick(r, 0, 0, 1)
		wCount = 5
		if idle = r.Pct(25); idle {
			P["nlogs"], clients, wApp = r.Range(1, 2), r.Range(1, 2), 100
			P["syncThr"] = sim.Pick(r, 5, 5, 15)
			p.Rates["remote.delay"] = sim.Pick(r, 2000, 6000)
		}
	case "C09":
		repl()
		if r.Pct(30) {
			sweep()
		}
		P["strict"] = 0
		P["replCheck"], P["finalStop"] = 1, 1
		if r.Pct(70) {
			faultMix(p, r, remoteKinds, 300, 1500, 4000)
		}
		if r.Pct(40) {
			faultMix(p, r, []string{"fs.readdir", "fs.open", "fs.read", "fs.write", "fs.stat", "fs.remove", "fs.close", "fs.rename"}, 50, 300)
		}
		if r.Pct(30) {
			p.Rates["remote.delay"] = 3000
		}
		if r.Pct(40) {
			sleepC(5, 60)
			if r.Pct(50) {
				crashOp()
			} else {
				chaos = append(chaos, Op{K: "rdown", A: int64(r.Range(1, 2000))})
			}
		}
		P["bunt"] = 0
		P["scanPeriod"] = sim.Pick(r, 20, 100, 500)
		opsPer = r.Range(2, 8)
		P["quietEnd"] = r.Intn(2)
		if idle = r.Pct(50); idle {
			P["nlogs"], clients, wApp = 1, r.Range(1, 2), 150
			P["syncThr"] = sim.Pick(r, 5, 5, 15)
			P["scanPeriod"] = sim.Pick(r, 10, 20, 40)
			p.Rates["remote.delay"] = sim.Pick(r, 2000, 6000)
			p.Rates["fs.delay"] = sim.Pick(r, 0, 500)
		}
	case "C12":
		cancelPct = 35
		P["maxOpened"], P["maxLocks"] = sim.Pick(r, 1, 1, 2, 3), sim.Pick(r, 1, 1, 2, 10)
		P["nlogs"] = r.Range(2, 5)
		clients = r.Range(2, 6)
		P["finalStop"] = 1
		switch r.Intn(4) {
		case 0:
			wDel, wCreate = 5, 8
			P["late"] = r.Intn(2)
		case 1:
			P["bunt"] = 0
			p.Rates["sql.delay"] = 2000
			for i := r.Range(1, 2); i > 0; i-- {
				sleepC(0, 30)
				chaos = append(chaos, Op{K: "restart"})
			}
		case 2:
			sweep()
			for i := r.Range(0, 2); i > 0; i-- {
				sleepC(0, 30)
				chaos = append(chaos, Op{K: "stall", A: int64(r.Range(100, 50000))})
			}
		case 3:
			P["bunt"] = 0
			p.Rates["sql.delay"] = 3000
			wDel, wCreate = 8, 8
			P["late"] = 1
		}
	}
	if P["strict"] == 1 && P["scanWorkers"] > 0 && r.Pct(50) {
		p.Rates["remote.delay"] = 2000
	}
	if r.Pct(25) {
		P["finalStop"] = 1
	}
	logBits := func() int64 {
		n := P["nlogs"]
		if r.Pct(multiPct) {
			return int64(r.Range(1, 1<<uint(n)-1))
		}
		return 1 << uint(r.Intn(n))
	}
	readOp := func(k string) Op {
		o := Op{K: k, A: logBits(), B: int64(sim.Pick(r, 1, 1, 2, 3, 10, 100, 1000)), N: nextNo()}
		if r.Pct(50) {
			o.C |= 1
		}
		if r.Pct(startPct) {
			o.C |= int64(r.Range(1, 5)) << 1
		}
		if r.Pct(condPct) {
			o.C |= int64(sim.Pick(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 9, 9, 10, 11)) << 4
		}
		if o.A&(o.A-1) != 0 || r.Pct(10) {
			o.S = sim.Pick(r, "ids", "ids", "tag", "idc")
		}
		if r.Pct(cancelPct) {
			o.D = int64(r.Range(1, 3000))
		}
		return o
	}
	p.Actors = append(p.Actors, chaos)
	total := wApp + wRead + wWalk + wCount + wDel + wCreate
	for i := 0; i < clients; i++ {
		var ops []Op
		for j := 0; j < opsPer; j++ {
			x := r.Intn(total)
			switch {
			case x < wApp || (j == 0 && i == 0):
				o := Op{K: "app", A: int64(r.Intn(P["nlogs"])), B: int64(sim.Pick(r, 1, 1, 2, 3, 5, 10, 30)), C: size(), N: nextNo()}
				if o.C == 3 || o.C == 6 {
					o.B = int64(r.Range(1, 3))
				}
				if r.Pct(5) {
					o.C = 5
				}
				if r.Pct(40) {
					o.S = "x"
				}
				if r.Pct(cancelPct) {
					o.D = int64(r.Range(1, 3000))
				}
				ops = append(ops, o)
			case x < wApp+wRead:
				ops = append(ops, readOp("read"))
			case x < wApp+wRead+wWalk:
				ops = append(ops, readOp("walk"))
			case x < wApp+wRead+wWalk+wCount:
				ops = append(ops, readOp("count"))
			case x < wApp+wRead+wWalk+wCount+wDel:
				ops = append(ops, Op{K: "del", A: int64(r.Intn(P["nlogs"])), N: nextNo()})
			default:
				ops = append(ops, Op{K: "create", A: int64(r.Intn(P["nlogs"])), N: nextNo()})
			}
			if idle {
				ops = append(ops, Op{K: "sleep", A: int64(r.Intn(sim.Pick(r, 3000, 15000, 40000)))})
			} else if r.Pct(40) {
				ops = append(ops, Op{K: "sleep", A: int64(r.Intn(sim.Pick(r, 10, 3000, 20000)))})
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	for i := 0; i < finals; i++ {
		k := sim.Pick(r, "walk", "walk", "count")
		if prop == "C06" {
			k = sim.Pick(r, "count", "count", "walk")
		}
		o := readOp(k)
		o.D = 0
		p.Final = append(p.Final, o)
	}
	if P["bunt"] == 0 && p.Rates["sql.read"] == 0 && p.Rates["sql.write"] == 0 && r.Pct(40) {
		P["conns"] = sim.Pick(r, 1, 2, 3, 64)
		P["pg"] = 1 // the real Postgres storage over a simulated server
	}
	return p
}
