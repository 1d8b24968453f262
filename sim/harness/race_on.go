//go:build race

package verifsim

import "runtime"

const raceBuild = true

// The simulator's own hand-over of control must not look like synchronisation
// between the goroutines of the system under test.
func raceOff()      { runtime.RaceDisable(); runtime.SimQuiet(true) }
func raceOn()       { runtime.SimQuiet(false); runtime.RaceEnable() }
func raceErrs() int { return runtime.RaceErrors() }

// quiet keeps the race detector from looking at what the simulator itself does.
func quiet() func() {
	runtime.SimQuiet(true)
	return func() { runtime.SimQuiet(false) }
}
