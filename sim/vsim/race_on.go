//go:build race

package vsim

import "runtime"

// RaceOn tells whether the happens-before race detector is part of the build.
const RaceOn = true

// The simulator's own hand-offs must not look like synchronisation of the code
// under test: with race handling of synchronisation disabled around them, the
// detector only sees the ordering the code under test establishes itself.
func syncOff() { runtime.RaceDisable() }
func syncOn()  { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
