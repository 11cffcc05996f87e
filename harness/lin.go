package main

import (
	"sort"
	"strings"
)

// ---------------------------------------------------------------- linearizability (Wing & Gong with memory)

// linOp is an operation of a history. It took effect between t0 and t1 (and, if opt is set, maybe not at all).
// step returns the states the operation may lead to from st; none if its result is impossible there.
type linOp struct {
	t0, t1 int64
	opt    bool
	step   func(st string) []string
	name   string
}

const linForever = int64(1) << 62

// linearize tells whether some order of the operations explains all the results; sure is false if the search was
// given up. deepest is the longest explainable prefix, for the report.
func linearize(init string, ops []*linOp, budget int) (ok, sure bool, deepest string) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].t0 < ops[j].t0 })
	n := len(ops)
	done := make([]byte, (n+7)/8)
	isDone := func(i int) bool { return done[i/8]&(1<<(i%8)) != 0 }
	seen := map[string]bool{}
	used, best := 0, -1
	var order []int
	var search func(cnt, from int, st string) bool
	search = func(cnt, from int, st string) bool {
		if cnt == n {
			return true
		}
		used++
		if used > budget {
			return false
		}
		for from < n && isDone(from) {
			from++
		}
		key := string(done) + st
		if seen[key] {
			return false
		}
		seen[key] = true
		first := linForever
		for i := from; i < n && ops[i].t0 <= first; i++ {
			if !isDone(i) && ops[i].t1 < first {
				first = ops[i].t1
			}
		}
		if cnt > best {
			best = cnt
			var sb strings.Builder
			for _, i := range order {
				sb.WriteString(ops[i].name + "; ")
			}
			sb.WriteString(" -- cannot be next:")
			for i := from; i < n && ops[i].t0 <= first; i++ {
				if !isDone(i) {
					sb.WriteString(" " + ops[i].name + ";")
				}
			}
			deepest = sb.String()
			if len(deepest) > 1100 {
				deepest = "..." + deepest[len(deepest)-1100:]
			}
		}
		for i := from; i < n && ops[i].t0 <= first; i++ {
			if isDone(i) {
				continue
			}
			o := ops[i]
			next := o.step(st)
			if o.opt {
				next = append(next[:len(next):len(next)], st)
			}
			done[i/8] |= 1 << (i % 8)
			order = append(order, i)
			for _, s := range next {
				if search(cnt+1, from, s) {
					return true
				}
			}
			order = order[:len(order)-1]
			done[i/8] &^= 1 << (i % 8)
		}
		return false
	}
	ok = search(0, 0, init)
	return ok, ok || used <= budget, deepest
}
