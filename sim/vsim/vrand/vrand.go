// Package vrand stands in for math/rand: seeded by the simulator.
package vrand

import (
	"math/rand"

	"geosim/vsim"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

type src struct{}

func (src) Int63() int64   { return int64(vsim.RandU64() >> 1) }
func (src) Uint64() uint64 { return vsim.RandU64() }
func (src) Seed(int64)     {}

var g = rand.New(src{})

func New(s Source) *Rand                 { return rand.New(s) }
func NewSource(seed int64) Source        { return rand.NewSource(seed) }
func Seed(int64)                         {}
func Int() int                           { return g.Int() }
func Intn(n int) int                     { return g.Intn(n) }
func IntN(n int) int                     { return g.Intn(n) }
func N(n int) int                        { return g.Intn(n) }
func Int31() int32                       { return g.Int31() }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Int32N(n int32) int32               { return g.Int31n(n) }
func Int63() int64                       { return g.Int63() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int64N(n int64) int64               { return g.Int63n(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
