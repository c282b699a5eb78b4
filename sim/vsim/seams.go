package vsim

import "time"

var randState Rand

// SetRandSeed seeds what the code under test gets from math/rand.
//
//go:norace
func SetRandSeed(s uint64) { randState.Seed(s) }

//go:norace
func RandU64() uint64 { return randState.U64() }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
