//go:build race

package vsched

import (
	"runtime"
)

// RaceEnabled tells whether the happens-before monitor is compiled in.
const RaceEnabled = true

// In the race build the hand-over between controlled threads must not create happens-before edges, or the
// monitor would see every execution as fully synchronised. This package is compiled without race
// instrumentation (the driver passes -gcflags=verif/vsched=-race=false), so a plain variable does it.
type gate struct{ v *int32 }

func newGate() gate { return gate{new(int32)} }

//go:noinline
func (g *gate) send(v bool) {
	for *g.v != 0 {
		runtime.Gosched()
	}
	if v {
		*g.v = 1
	} else {
		*g.v = 2
	}
}

//go:noinline
func (g *gate) recv() bool {
	for *g.v == 0 {
		runtime.Gosched()
	}
	r := *g.v == 1
	*g.v = 0
	return r
}

func raceErrors() int { return runtime.RaceErrors() }
