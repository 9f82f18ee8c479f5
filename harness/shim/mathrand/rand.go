// Package rand is math/rand with a deterministic global source.
package rand

import (
	real "math/rand"

	"verif.local/v/mc"
)

var g = real.New(real.NewSource(1))

func init() { mc.OnReset(func() { g = real.New(real.NewSource(1)) }) }

func Int() int                           { return g.Int() }
func Intn(n int) int                     { return g.Intn(n) }
func Int63() int64                       { return g.Int63() }
func Int31() int32                       { return g.Int31() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g.Read(p) }
func Seed(s int64)                       { g.Seed(s) }
