package skipmap

import "math"

// ---- value types ----

type vMapV[K, V any] interface {
	Store(K, V)
	Load(K) (V, bool)
	LoadAndDelete(K) (V, bool)
	LoadOrStore(K, V) (V, bool)
	LoadOrStoreLazy(K, func() V) (V, bool)
	Delete(K) bool
	Range(func(K, V) bool)
	Len() int
}

type vPair struct {
	a int
	b string
	c *int
	d bool
}

type vErr struct{ s string }

func (e *vErr) Error() string { return e.s }

func VHval() {
	switch vParam("value") {
	case "int":
		vVal(func(l string) int { return vNondet[int](l) }, func(a, b int) bool { return a == b })
	case "uint8":
		vVal(func(l string) uint8 { return vNondet[uint8](l) }, func(a, b uint8) bool { return a == b })
	case "bool":
		vVal(func(l string) bool { return vNondet[bool](l) }, func(a, b bool) bool { return a == b })
	case "float64":
		vVal(func(l string) float64 { return vNondet[float64](l) }, func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) })
	case "string":
		vVal(func(l string) string { return vNondet[string](l) }, func(a, b string) bool { return a == b })
	case "big":
		vVal(func(l string) [40]int {
			var a [40]int
			a[0], a[17], a[39] = vNondet[int](l+"0"), vNondet[int](l+"1"), vNondet[int](l+"2")
			return a
		}, func(a, b [40]int) bool {
			return vAnd(vAnd(a[0] == b[0], a[17] == b[17]), vAnd(a[39] == b[39], a[1] == b[1]))
		})
	case "float32":
		vVal(func(l string) float32 { return vNondet[float32](l) }, func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) })
	case "int16":
		vVal(func(l string) int16 { return vNondet[int16](l) }, func(a, b int16) bool { return a == b })
	case "uint32":
		vVal(func(l string) uint32 { return vNondet[uint32](l) }, func(a, b uint32) bool { return a == b })
	case "two":
		vVal(func(l string) vTwo { return vTwo{vNondet[int](l + "a"), vNondet[int](l + "b")} }, func(a, b vTwo) bool { return a == b })
	case "empty":
		vVal(func(l string) struct{} { return struct{}{} }, func(a, b struct{}) bool { return true })
	case "array":
		vVal(func(l string) [3]int {
			return [3]int{vNondet[int](l + "0"), vNondet[int](l + "1"), vNondet[int](l + "2")}
		}, func(a, b [3]int) bool { return a == b })
	case "pointer":
		x, y := new(int), new(int)
		vVal(func(l string) *int {
			var p *int
			switch vInt(l, 0, 2) {
			case 1:
				p = x
			case 2:
				p = y
			}
			return p
		}, func(a, b *int) bool { return a == b })
	case "struct":
		x := new(int)
		vVal(func(l string) vPair {
			p := vPair{a: vNondet[int](l + "a"), b: vNondet[string](l + "b"), d: vNondet[bool](l + "d")}
			if vBool(l + "c") {
				p.c = x
			}
			return p
		}, func(a, b vPair) bool { return a == b })
	case "interface":
		e := &vErr{"e"}
		l1, l2 := []int{1}, []int{2}
		zero := 0.0
		vVal(func(l string) interface{} {
			var r interface{}
			switch vInt(l, 0, 9) {
			case 1:
				r = 0
			case 2:
				r = "text"
			case 3:
				r = error(e)
			case 4:
				r = (*vErr)(nil)
			case 5:
				r = 7
			case 6:
				r = l1
			case 7:
				r = l2
			case 8:
				r = zero
			case 9:
				r = -zero
			}
			return r
		}, func(a, b interface{}) bool {
			if p, ok := a.([]int); ok {
				q, ok := b.([]int)
				return ok && &p[0] == &q[0]
			}
			if p, ok := a.(float64); ok {
				q, ok := b.(float64)
				return ok && math.Float64bits(p) == math.Float64bits(q)
			}
			return a == b
		})
	case "error":
		e := &vErr{"e"}
		vVal(func(l string) error {
			var r error
			if vBool(l) {
				r = e
			}
			return r
		}, func(a, b error) bool { return a == b })
	case "slice":
		s := []int{1, 2, 3}
		vVal(func(l string) []int {
			var r []int
			switch vInt(l, 0, 2) {
			case 1:
				r = s[:2:2]
			case 2:
				r = s[1:]
			}
			return r
		}, func(a, b []int) bool {
			if len(a) != len(b) || cap(a) != cap(b) || (a == nil) != (b == nil) {
				return false
			}
			return len(a) == 0 || &a[0] == &b[0]
		})
	case "func":
		f := func() int { return 1 }
		g := func() int { return 2 }
		call := func(h func() int) int {
			if h == nil {
				return 0
			}
			return h()
		}
		vVal(func(l string) func() int {
			var r func() int
			switch vInt(l, 0, 2) {
			case 1:
				r = f
			case 2:
				r = g
			}
			return r
		}, func(a, b func() int) bool { return call(a) == call(b) })
	}
}

func vVal[V any](mk func(string) V, same func(a, b V) bool) {
	vLevels(vParamInt("levels"))
	switch vParam("variant") {
	case "func":
		vValues[int, V](NewFunc[int, V](func(a, b int) bool { return a < b }), 1, 2, mk, same)
	case "ordered":
		vValues[int, V](New[int, V](), 1, 2, mk, same)
	case "ordereddesc":
		vValues[int, V](NewDesc[int, V](), 1, 2, mk, same)
	case "orderedfloat":
		vValues[float64, V](New[float64, V](), 1, 2, mk, same)
	case "orderedstring":
		vValues[string, V](New[string, V](), "a", "b", mk, same)
	case "string":
		vValues[string, V](NewString[V](), "a", "b", mk, same)
	case "stringdesc":
		vValues[string, V](NewStringDesc[V](), "a", "b", mk, same)
	case "float32":
		vValues[float32, V](NewFloat32[V](), 1, 2, mk, same)
	case "float32desc":
		vValues[float32, V](NewFloat32Desc[V](), 1, 2, mk, same)
	case "float64":
		vValues[float64, V](NewFloat64[V](), 1, 2, mk, same)
	case "float64desc":
		vValues[float64, V](NewFloat64Desc[V](), 1, 2, mk, same)
	case "int":
		vValues[int, V](NewInt[V](), 1, 2, mk, same)
	case "intdesc":
		vValues[int, V](NewIntDesc[V](), 1, 2, mk, same)
	case "int64":
		vValues[int64, V](NewInt64[V](), 1, 2, mk, same)
	case "int64desc":
		vValues[int64, V](NewInt64Desc[V](), 1, 2, mk, same)
	case "int32":
		vValues[int32, V](NewInt32[V](), 1, 2, mk, same)
	case "int32desc":
		vValues[int32, V](NewInt32Desc[V](), 1, 2, mk, same)
	case "uint64":
		vValues[uint64, V](NewUint64[V](), 1, 2, mk, same)
	case "uint64desc":
		vValues[uint64, V](NewUint64Desc[V](), 1, 2, mk, same)
	case "uint32":
		vValues[uint32, V](NewUint32[V](), 1, 2, mk, same)
	case "uint32desc":
		vValues[uint32, V](NewUint32Desc[V](), 1, 2, mk, same)
	case "uint":
		vValues[uint, V](NewUint[V](), 1, 2, mk, same)
	case "uintdesc":
		vValues[uint, V](NewUintDesc[V](), 1, 2, mk, same)
	default:
		panic("map type")
	}
}

// vValues stores arbitrary values in every way and reads them in every way.
func vValues[K comparable, V any](m vMapV[K, V], k, k2 K, mk func(string) V, same func(a, b V) bool) {
	var zero V
	v1, v2, other := mk("v1"), mk("v2"), mk("other")
	vOp()
	m.Store(k2, other)
	how := vInt("how", 0, 3)
	vOp()
	switch how {
	case 0:
		m.Store(k, v1)
	case 1:
		x, ok := m.LoadOrStore(k, v1)
		vAssert(vAnd(vNot(ok), same(x, v1)), "LoadOrStore did not return the value stored")
	case 2:
		x, ok := m.LoadOrStoreLazy(k, func() V { return v1 })
		vAssert(vAnd(vNot(ok), same(x, v1)), "LoadOrStoreLazy did not return the value stored")
	case 3:
		m.Store(k, v2)
		vOp()
		m.Store(k, v1)
	}
	switch vInt("then", 0, 2) {
	case 1:
		x, ok := m.LoadAndDelete(k)
		vAssert(vAnd(ok, same(x, v1)), "LoadAndDelete does not return the value stored first")
		x, ok = m.Load(k)
		vAssert(vAnd(vNot(ok), same(x, zero)), "Load of a deleted key does not return the zero value")
		vOp()
		x, ok = m.LoadOrStore(k, v2)
		vAssert(vAnd(vNot(ok), same(x, v2)), "LoadOrStore did not return the value stored")
		x, ok = m.LoadAndDelete(k)
		vAssert(vAnd(ok, same(x, v2)), "LoadAndDelete does not return the value stored again")
		return
	case 2:
		vAssert(m.Delete(k), "Delete does not find the key")
		vOp()
		x, ok := m.LoadOrStoreLazy(k, func() V { return v2 })
		vAssert(vAnd(vNot(ok), same(x, v2)), "LoadOrStoreLazy did not return the value stored")
		x, ok = m.Load(k)
		vAssert(vAnd(ok, same(x, v2)), "Load does not return the value stored again")
		return
	}
	x, ok := m.Load(k)
	vAssert(vAnd(ok, same(x, v1)), "Load does not return the value stored")
	vOp()
	x, ok = m.LoadOrStore(k, v2)
	vAssert(vAnd(ok, same(x, v1)), "LoadOrStore does not return the value stored")
	vOp()
	x, ok = m.LoadOrStoreLazy(k, func() V { return v2 })
	vAssert(vAnd(ok, same(x, v1)), "LoadOrStoreLazy does not return the value stored")
	n := 0
	good := true
	m.Range(func(q K, y V) bool {
		n++
		if q == k {
			good = vAnd(good, same(y, v1))
		} else {
			good = vAnd(good, same(y, other))
		}
		return true
	})
	vAssert(vAnd(n == 2, good), "Range does not report the value stored")
	vOp()
	m.Store(k, v2)
	x, ok = m.Load(k)
	vAssert(vAnd(ok, same(x, v2)), "Load does not return the overwriting value")
	x, ok = m.LoadAndDelete(k)
	vAssert(vAnd(ok, same(x, v2)), "LoadAndDelete does not return the value stored")
	x, ok = m.Load(k)
	vAssert(vAnd(vNot(ok), same(x, zero)), "Load of an absent key does not return the zero value")
	x, ok = m.LoadAndDelete(k)
	vAssert(vAnd(vNot(ok), same(x, zero)), "LoadAndDelete of an absent key does not return the zero value")
	x, ok = m.Load(k2)
	vAssert(vAnd(ok, same(x, other)), "another key's value changed")
}

// ---- wide values read while they are written ----

type vWide struct{ a, b, c int }
type vTwo struct{ a, b int }

// VHwide: one goroutine replaces a value while another reads it.
func VHwide() {
	if vParam("shape") == "two" {
		vWideIn[vTwo](func(x int) vTwo { return vTwo{x, x} }, func(x vTwo) bool { return x.a == x.b })
		return
	}
	vWideIn[vWide](func(x int) vWide { return vWide{x, x, x} }, func(x vWide) bool { return vAnd(x.a == x.b, x.b == x.c) })
}

func vWideIn[V any](mk func(int) V, whole func(V) bool) {
	vLevels(vParamInt("levels"))
	switch vParam("variant") {
	case "func":
		vWideOf[int, V](NewFunc[int, V](func(a, b int) bool { return a < b }), 1, mk, whole)
	case "ordered":
		vWideOf[int, V](New[int, V](), 1, mk, whole)
	case "ordereddesc":
		vWideOf[int, V](NewDesc[int, V](), 1, mk, whole)
	case "orderedfloat":
		vWideOf[float64, V](New[float64, V](), 1, mk, whole)
	case "orderedstring":
		vWideOf[string, V](New[string, V](), "a", mk, whole)
	case "string":
		vWideOf[string, V](NewString[V](), "a", mk, whole)
	case "stringdesc":
		vWideOf[string, V](NewStringDesc[V](), "a", mk, whole)
	case "float32":
		vWideOf[float32, V](NewFloat32[V](), 1, mk, whole)
	case "float32desc":
		vWideOf[float32, V](NewFloat32Desc[V](), 1, mk, whole)
	case "float64":
		vWideOf[float64, V](NewFloat64[V](), 1, mk, whole)
	case "float64desc":
		vWideOf[float64, V](NewFloat64Desc[V](), 1, mk, whole)
	case "int":
		vWideOf[int, V](NewInt[V](), 1, mk, whole)
	case "intdesc":
		vWideOf[int, V](NewIntDesc[V](), 1, mk, whole)
	case "int64":
		vWideOf[int64, V](NewInt64[V](), 1, mk, whole)
	case "int64desc":
		vWideOf[int64, V](NewInt64Desc[V](), 1, mk, whole)
	case "int32":
		vWideOf[int32, V](NewInt32[V](), 1, mk, whole)
	case "int32desc":
		vWideOf[int32, V](NewInt32Desc[V](), 1, mk, whole)
	case "uint64":
		vWideOf[uint64, V](NewUint64[V](), 1, mk, whole)
	case "uint64desc":
		vWideOf[uint64, V](NewUint64Desc[V](), 1, mk, whole)
	case "uint32":
		vWideOf[uint32, V](NewUint32[V](), 1, mk, whole)
	case "uint32desc":
		vWideOf[uint32, V](NewUint32Desc[V](), 1, mk, whole)
	case "uint":
		vWideOf[uint, V](NewUint[V](), 1, mk, whole)
	case "uintdesc":
		vWideOf[uint, V](NewUintDesc[V](), 1, mk, whole)
	default:
		panic("map type")
	}
}

func vWideOf[K comparable, V any](m vMapV[K, V], key K, mk func(int) V, whole func(V) bool) {
	if vBool("pre") {
		vOp()
		m.Store(key, mk(10))
	}
	ka, kb := vPick("opA", vParamInt("opsA")), vPick("opB", vParamInt("opsB"))
	bad := []bool{false, false}
	one := func(t, kind, base int) func() {
		return func() {
			w := mk(base)
			chk := func(x V) { bad[t] = vOr(bad[t], vNot(whole(x))) }
			vOp()
			switch kind {
			case opStore:
				m.Store(key, w)
			case opLoad:
				x, _ := m.Load(key)
				chk(x)
			case opLAD:
				x, _ := m.LoadAndDelete(key)
				chk(x)
			case opLOS:
				x, _ := m.LoadOrStore(key, w)
				chk(x)
			case opLazy:
				x, _ := m.LoadOrStoreLazy(key, func() V { return w })
				chk(x)
			case opRange:
				m.Range(func(k K, x V) bool { chk(x); return true })
			}
		}
	}
	vPar(vParam("sched"), one(0, ka, 100), one(1, kb, 200))
	vAssert(vNot(vOr(bad[0], bad[1])), "a reader saw a mixture of two values")
}

// ---- retention ----

func vTokMap(variant string) vTokEnv {
	switch variant {
	case "func":
		return &vTokMapOf[int]{NewFunc[int, *int64](func(a, b int) bool { return a < b }), [3]int{1, 2, 3}}
	case "ordered":
		return &vTokMapOf[int]{New[int, *int64](), [3]int{1, 2, 3}}
	case "ordereddesc":
		return &vTokMapOf[int]{NewDesc[int, *int64](), [3]int{1, 2, 3}}
	case "string":
		return &vTokMapOf[string]{NewString[*int64](), [3]string{"b", "d", "f"}}
	case "stringdesc":
		return &vTokMapOf[string]{NewStringDesc[*int64](), [3]string{"b", "d", "f"}}
	case "float32":
		return &vTokMapOf[float32]{NewFloat32[*int64](), [3]float32{1, 2, 3}}
	case "float32desc":
		return &vTokMapOf[float32]{NewFloat32Desc[*int64](), [3]float32{1, 2, 3}}
	case "float64":
		return &vTokMapOf[float64]{NewFloat64[*int64](), [3]float64{1, 2, 3}}
	case "float64desc":
		return &vTokMapOf[float64]{NewFloat64Desc[*int64](), [3]float64{1, 2, 3}}
	case "int":
		return &vTokMapOf[int]{NewInt[*int64](), [3]int{1, 2, 3}}
	case "intdesc":
		return &vTokMapOf[int]{NewIntDesc[*int64](), [3]int{1, 2, 3}}
	case "int64":
		return &vTokMapOf[int64]{NewInt64[*int64](), [3]int64{1, 2, 3}}
	case "int64desc":
		return &vTokMapOf[int64]{NewInt64Desc[*int64](), [3]int64{1, 2, 3}}
	case "int32":
		return &vTokMapOf[int32]{NewInt32[*int64](), [3]int32{1, 2, 3}}
	case "int32desc":
		return &vTokMapOf[int32]{NewInt32Desc[*int64](), [3]int32{1, 2, 3}}
	case "uint64":
		return &vTokMapOf[uint64]{NewUint64[*int64](), [3]uint64{1, 2, 3}}
	case "uint64desc":
		return &vTokMapOf[uint64]{NewUint64Desc[*int64](), [3]uint64{1, 2, 3}}
	case "uint32":
		return &vTokMapOf[uint32]{NewUint32[*int64](), [3]uint32{1, 2, 3}}
	case "uint32desc":
		return &vTokMapOf[uint32]{NewUint32Desc[*int64](), [3]uint32{1, 2, 3}}
	case "uint":
		return &vTokMapOf[uint]{NewUint[*int64](), [3]uint{1, 2, 3}}
	case "uintdesc":
		return &vTokMapOf[uint]{NewUintDesc[*int64](), [3]uint{1, 2, 3}}
	case "orderedfloat":
		return &vTokMapOf[float64]{New[float64, *int64](), [3]float64{-1, 0, 7}}
	case "orderedstring":
		return &vTokMapOf[string]{New[string, *int64](), [3]string{"b", "d", "f"}}
	}
	panic("map type")
}

// vTokEnv is a map whose values are tokens; keys are given by index.
type vTokEnv interface {
	op(kind, key, tok int) bool
	holds(key, tok int) bool
	retained(tok int) bool
}

type vTokMapOf[K any] struct {
	m    vMapV[K, *int64]
	keys [3]K
}

// holds reports whether the value of the key is this token.
func (e *vTokMapOf[K]) holds(key, tok int) bool {
	p, ok := e.m.Load(e.keys[key])
	is := false
	if ok {
		is = *p == int64(tok+1)
	}
	p = nil
	return is
}

func (e *vTokMapOf[K]) retained(tok int) bool { return vRetained(e.m, tok) }

//go:noinline
func (e *vTokMapOf[K]) op(kind, at, tok int) (changed bool) {
	m, key := e.m, e.keys[at]
	vOp()
	switch kind {
	case opStore:
		m.Store(key, vToken(tok))
		changed = true
	case opLAD:
		_, changed = m.LoadAndDelete(key)
	case opLOS:
		_, ok := m.LoadOrStore(key, vToken(tok))
		changed = !ok
	case opLazy:
		_, ok := m.LoadOrStoreLazy(key, func() *int64 { return vToken(tok) })
		changed = !ok
	case opDelete:
		changed = m.Delete(key)
	case opLoad:
		m.Load(key)
	}
	return
}

// VHleak: values are overwritten or deleted by one or two goroutines; token 10+k is the first value of key k.
func VHleak() {
	vLevels(vParamInt("levels"))
	m := vTokMap(vParam("variant"))
	n := vParamInt("nkeys")
	var pre, hit [3]bool
	for i := 0; i < n; i++ {
		pre[i] = i == 0 || vBool("pre"+vItoa(i))
		if pre[i] {
			m.op(opStore, i, 10+i)
		}
	}
	// calls of A and B; token 20+j is the value of call j
	na, nb := vParamInt("na"), vParamInt("nb")
	kind, key := make([]int, na+nb), make([]int, na+nb)
	did := make([]bool, na+nb)
	for j := range kind {
		t := "A" + vItoa(j)
		if j >= na {
			t = "B" + vItoa(j-na)
		}
		kind[j] = vPick("op"+t, vParamInt("ops"+t))
		key[j] = vPick("key"+t, vParamInt("keys"+t[:1]))
	}
	run := func(lo, hi int) func() {
		return func() {
			for j := lo; j < hi; j++ {
				did[j] = m.op(kind[j], key[j], 20+j)
			}
		}
	}
	if s := vParam("sched"); s != "" {
		vPar(s, run(0, na), run(na, na+nb))
	} else {
		run(0, na+nb)()
	}
	for i := 0; i < n; i++ {
		for j := range kind {
			hit[i] = vOr(hit[i], vAnd(key[j] == i, did[j]))
		}
		if pre[i] && hit[i] {
			vReach("changed")
			vAssert(vNot(m.retained(10+i)), "an overwritten or deleted value is still reachable from the map")
		}
	}
	for j := range kind {
		ins := vOr(kind[j] == opStore, vOr(kind[j] == opLOS, kind[j] == opLazy))
		is := m.holds(key[j], 20+j)
		if vAnd(ins, vAnd(did[j], vNot(is))) {
			vAssert(vNot(m.retained(20+j)), "an overwritten or deleted value is still reachable from the map")
		}
	}
}
