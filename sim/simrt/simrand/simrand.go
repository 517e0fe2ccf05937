// Package rand replaces math/rand in instrumented code.
package rand

import (
	"math/rand"

	"amsim/simrt"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
)

type src struct{}

func (src) Int63() int64 {
	if simrt.InSim() {
		return int64(simrt.S.Env.U64() >> 1)
	}
	return 4
}
func (src) Uint64() uint64 { return uint64(src{}.Int63()) << 1 }
func (src) Seed(int64)     {}

var r = rand.New(src{})

func New(s Source) *Rand              { return rand.New(s) }
func NewSource(s int64) Source        { return rand.NewSource(s) }
func Seed(int64)                      {}
func Int() int                        { return r.Int() }
func Intn(n int) int                  { return r.Intn(n) }
func Int31() int32                    { return r.Int31() }
func Int31n(n int32) int32            { return r.Int31n(n) }
func Int63() int64                    { return r.Int63() }
func Int63n(n int64) int64            { return r.Int63n(n) }
func Uint32() uint32                  { return r.Uint32() }
func Uint64() uint64                  { return r.Uint64() }
func Float32() float32                { return r.Float32() }
func Float64() float64                { return r.Float64() }
func Perm(n int) []int                { return r.Perm(n) }
func Shuffle(n int, f func(i, j int)) { r.Shuffle(n, f) }
func Read(p []byte) (int, error)      { return r.Read(p) }
