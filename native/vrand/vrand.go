// Package fastrand stands in for the random sources during replay: it returns the recorded draws.
package fastrand

import (
	"math"

	"MODULE/zzverif/sched"
)

func word() uint64 {
	v, ok := sched.Draw()
	if !ok {
		return math.MaxUint64
	}
	return uint64(v)
}

func below(n uint64) uint64 {
	v, ok := sched.Draw()
	if !ok || uint64(v) >= n {
		return n - 1
	}
	return uint64(v)
}

func Uint32n(n uint32) uint32 { return uint32(below(uint64(n))) }
func Uint64n(n uint64) uint64 { return below(n) }
func Uintn(n uint) uint       { return uint(below(uint64(n))) }
func Intn(n int) int          { return int(below(uint64(n))) }
func IntN(n int) int          { return int(below(uint64(n))) }
func Int31n(n int32) int32    { return int32(below(uint64(n))) }
func Int32N(n int32) int32    { return int32(below(uint64(n))) }
func Int63n(n int64) int64    { return int64(below(uint64(n))) }
func Int64N(n int64) int64    { return int64(below(uint64(n))) }
func Uint32N(n uint32) uint32 { return uint32(below(uint64(n))) }
func Uint64N(n uint64) uint64 { return below(n) }
func Uint32() uint32          { return uint32(word()) }
func Uint64() uint64          { return word() }
func Uint() uint              { return uint(word()) }
func Int() int                { return int(word() >> 1) }
func Int31() int32            { return int32(uint32(word()) >> 1) }
func Int63() int64            { return int64(word() >> 1) }
func Float64() float64        { return math.Float64frombits(word()) }
func Float32() float32        { return math.Float32frombits(uint32(word())) }
func Seed(int64)              {}
