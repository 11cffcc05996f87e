// Package ssignal replaces package os/signal
package ssignal

import (
	"os"

	"github.com/solarisdb/solaris/zsim/sim"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var regs []*reg

func init() { sim.Global(&regs) }

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	sim.YS()
	regs = append(regs, &reg{c, sigs})
}

func Stop(c chan<- os.Signal) {
	for i, r := range regs {
		if r.c == c {
			regs = append(regs[:i:i], regs[i+1:]...)
			return
		}
	}
}

// Raise delivers the signal to the current node as the runtime does: without waiting for the receiver. It
// returns whether somebody was registered.
func Raise(sig os.Signal) bool {
	found := false
	for _, r := range regs {
		ok := len(r.sigs) == 0
		for _, s := range r.sigs {
			ok = ok || s == sig
		}
		if ok {
			found = true
			sim.SendNow(r.c, sig)
		}
	}
	return found
}
