package sim

import "unsafe"

// Package level variables of instrumented packages exist once per node: they are swapped when the scheduler
// switches between nodes.

type globalVar struct {
	save func() any
	load func(any)
}

var (
	globalVars []globalVar
	reinits    []func()
	origVals   []any
)

// Global registers a package level variable
func Global[T any](p *T) {
	raceGlobal(unsafe.Pointer(p), unsafe.Sizeof(*p))
	globalVars = append(globalVars, globalVar{
		save: func() any { v := *p; return &v },
		load: func(v any) { *p = *(v.(*T)) },
	})
}

// Reinit registers the function which initialises the variables of a package again
func Reinit(f func()) { reinits = append(reinits, f) }

func saveAll() []any {
	r := make([]any, len(globalVars))
	for i, g := range globalVars {
		r[i] = g.save()
	}
	return r
}

func loadAll(v []any) {
	for i, g := range globalVars {
		g.load(v[i])
	}
}

// initGlobals creates the variables of the node n by executing the initialisers again
func initGlobals(n *Node) {
	s := S
	if cur == nil {
		// the world, before the first task
		origVals = saveAll()
		S = nil // initialisers run as outside of a simulation
		for _, f := range reinits {
			f()
		}
		S = s
		n.globals = nil
		n.gvalid = true
		left = noSimLeft
		return
	}
	mine := saveAll()
	s.fold()
	l, q := left, s.quota
	S = nil
	left = noSimLeft
	for _, f := range reinits {
		f()
	}
	S = s
	left, s.quota = l, q
	n.globals = saveAll()
	loadAll(mine)
}

func restoreGlobals() { loadAll(origVals) }

func swapGlobals(from, to *Node) {
	if from == to || len(globalVars) == 0 {
		return
	}
	from.globals = saveAll()
	if to.globals != nil {
		loadAll(to.globals)
	}
}
