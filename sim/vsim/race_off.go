//go:build !race

package vsim

const RaceOn = false

func syncOff() {}
func syncOn()  {}

func RaceErrors() int { return 0 }
