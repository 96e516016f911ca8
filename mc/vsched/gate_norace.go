//go:build !race

package vsched

// RaceEnabled tells whether the happens-before monitor is compiled in.
const RaceEnabled = false

type gate struct{ ch chan bool }

func newGate() gate         { return gate{make(chan bool)} }
func (g *gate) send(v bool) { g.ch <- v }
func (g *gate) recv() bool  { return <-g.ch }
func raceErrors() int       { return 0 }
