// Package rand replaces math/rand/v2 in instrumented code.
package rand

import (
	"math/rand/v2"

	"amsim/simrt"
)

type src struct{}

func (src) Uint64() uint64 {
	if simrt.InSim() {
		return simrt.S.Env.U64()
	}
	return 4
}

var r = rand.New(src{})

func Int() int                        { return r.Int() }
func IntN(n int) int                  { return r.IntN(n) }
func Int64() int64                    { return r.Int64() }
func Int64N(n int64) int64            { return r.Int64N(n) }
func Uint32() uint32                  { return r.Uint32() }
func Uint64() uint64                  { return r.Uint64() }
func Float64() float64                { return r.Float64() }
func Perm(n int) []int                { return r.Perm(n) }
func Shuffle(n int, f func(i, j int)) { r.Shuffle(n, f) }
