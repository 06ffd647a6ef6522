// Package simrand stands in for math/rand in the code under test: the source
// that nobody seeds is the simulator's.
package simrand

import (
	"math/rand"

	"verif/simrt"
)

type source struct{}

func (source) Int63() int64   { return int64(simrt.Random() >> 1) }
func (source) Uint64() uint64 { return simrt.Random() }
func (source) Seed(int64)     {}

var global = rand.New(source{})

func Int() int                           { return global.Int() }
func Intn(n int) int                     { return global.Intn(n) }
func Int31() int32                       { return global.Int31() }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Int63() int64                       { return global.Int63() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Uint32() uint32                     { return global.Uint32() }
func Uint64() uint64                     { return global.Uint64() }
func Float32() float32                   { return global.Float32() }
func Float64() float64                   { return global.Float64() }
func ExpFloat64() float64                { return global.ExpFloat64() }
func NormFloat64() float64               { return global.NormFloat64() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Seed(int64)                         {}

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Random())
	}
	return len(p), nil
}
