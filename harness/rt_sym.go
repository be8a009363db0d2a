package skipmap

import "sync"

// Declarations of the primitives that the symbolic executor interprets.
// The native counterparts are in rt_native.go.

func vInt(label string, lo, hi int) int    { return 0 }
func vPick(label string, mask int) int     { return 0 }
func vBool(label string) bool              { return false }
func vNondet[T any](label string) (t T)    { return }
func vAssume(c bool)                       {}
func vAssert(c bool, label string)         {}
func vReach(label string)                  {}
func vYield()                              {}
func vAnd(a, b bool) bool                  { return false }
func vOr(a, b bool) bool                   { return false }
func vNot(a bool) bool                     { return false }
func vEqB(a, b bool) bool                  { return false }
func vIte(c bool, a, b int) int            { return 0 }
func vParam(name string) string            { return "" }
func vParamInt(name string) int            { return 0 }
func vLevels(mask int)                     {}
func vItoa(n int) string                   { return "" }
func vPar(sched string, fs ...func())      {}
func vStall(sched string, fs ...func())    {}
func vCost() int                           { return 0 }
func vOp()                                 {}
func vToken(id int) *int64                 { return nil }
func vRetained(m interface{}, id int) bool { return false }
func vObs(label string, x int, ok bool)    {}

func vPoolTake(p *sync.Pool) interface{}   { return nil }
func vPoolPut(p *sync.Pool, x interface{}) {}

// vPoolGet stands for (*sync.Pool).Get.
func vPoolGet(p *sync.Pool) interface{} {
	x := vPoolTake(p)
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
