// Package rand stands in for math/rand: the global source is seeded by the simulator.
package rand

import (
	real "math/rand"

	"github.com/tdewolff/font/zzverif/simrt"
)

type (
	Rand     = real.Rand
	Source   = real.Source
	Source64 = real.Source64
	Zipf     = real.Zipf
)

var global = real.New(real.NewSource(1))

// SimSeed seeds the global source for the run.
func SimSeed(seed uint64) { global = real.New(real.NewSource(int64(simrt.Mix(seed, 77)))) }

func New(src Source) *Rand               { return real.New(src) }
func NewSource(seed int64) Source        { return real.NewSource(seed) }
func Seed(seed int64)                    { global.Seed(seed) }
func Int63() int64                       { return global.Int63() }
func Uint32() uint32                     { return global.Uint32() }
func Uint64() uint64                     { return global.Uint64() }
func Int31() int32                       { return global.Int31() }
func Int() int                           { return global.Int() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Intn(n int) int                     { return global.Intn(n) }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func NormFloat64() float64               { return global.NormFloat64() }
func ExpFloat64() float64                { return global.ExpFloat64() }
