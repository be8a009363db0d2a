package skipmap

import "math"

// vMap is the public method set of every map type for int values.
type vMap[K any] interface {
	Store(K, int)
	Load(K) (int, bool)
	LoadAndDelete(K) (int, bool)
	LoadOrStore(K, int) (int, bool)
	LoadOrStoreLazy(K, func() int) (int, bool)
	Delete(K) bool
	Range(func(K, int) bool)
	Len() int
}

const (
	opStore = iota
	opLoad
	opLAD
	opLOS
	opLazy
	opDelete
	opRange
	opLen
)

type vRun interface {
	conc()
	seq()
	stall()
	apart()
	rng()
	lenc()
	reent()
	pan()
	indep()
	race()
	crowd()
	cost()
	box() vBoxed
}

// vEnv is one map type with a table of keys in the map's own order.
type vEnv[K comparable] struct {
	mk   func() vMap[K]
	keys []K
}

// vMk_NAME makes an empty map of each kind.
func vMk_func() vMap[int]             { return NewFunc[int, int](func(a, b int) bool { return a < b }) }
func vMk_ordered() vMap[int]          { return New[int, int]() }
func vMk_ordereddesc() vMap[int]      { return NewDesc[int, int]() }
func vMk_orderedfloat() vMap[float64] { return New[float64, int]() }
func vMk_orderedstring() vMap[string] { return New[string, int]() }
func vMk_string() vMap[string]        { return NewString[int]() }
func vMk_stringdesc() vMap[string]    { return NewStringDesc[int]() }
func vMk_float32() vMap[float32]      { return NewFloat32[int]() }
func vMk_float32desc() vMap[float32]  { return NewFloat32Desc[int]() }
func vMk_float64() vMap[float64]      { return NewFloat64[int]() }
func vMk_float64desc() vMap[float64]  { return NewFloat64Desc[int]() }
func vMk_int() vMap[int]              { return NewInt[int]() }
func vMk_intdesc() vMap[int]          { return NewIntDesc[int]() }
func vMk_int64() vMap[int64]          { return NewInt64[int]() }
func vMk_int64desc() vMap[int64]      { return NewInt64Desc[int]() }
func vMk_int32() vMap[int32]          { return NewInt32[int]() }
func vMk_int32desc() vMap[int32]      { return NewInt32Desc[int]() }
func vMk_uint64() vMap[uint64]        { return NewUint64[int]() }
func vMk_uint64desc() vMap[uint64]    { return NewUint64Desc[int]() }
func vMk_uint32() vMap[uint32]        { return NewUint32[int]() }
func vMk_uint32desc() vMap[uint32]    { return NewUint32Desc[int]() }
func vMk_uint() vMap[uint]            { return NewUint[int]() }
func vMk_uintdesc() vMap[uint]        { return NewUintDesc[int]() }

// vSelect gives the environment of a map type by name.
func vSelect(name string) vRun {
	inf, nan := math.Inf(1), math.NaN()
	_ = inf
	switch name {
	case "func":
		return &vEnv[int]{vMk_func, []int{math.MinInt64, -1, 0, 7, math.MaxInt64}}
	case "ordered":
		return &vEnv[int]{vMk_ordered, []int{math.MinInt64, -1, 0, 7, math.MaxInt64}}
	case "ordereddesc":
		return &vEnv[int]{vMk_ordereddesc, []int{math.MaxInt64, 7, 0, -1, math.MinInt64}}
	case "orderedfloat":
		return &vEnv[float64]{vMk_orderedfloat, []float64{math.Inf(-1), -1, 0, 7, math.Inf(1)}}
	case "orderedstring":
		return &vEnv[string]{vMk_orderedstring, []string{"", "a", "ab", "b", "ba"}}
	case "string":
		return &vEnv[string]{vMk_string, []string{"", "a", "ab", "b", "ba"}}
	case "stringdesc":
		return &vEnv[string]{vMk_stringdesc, []string{"ba", "b", "ab", "a", ""}}
	case "float32":
		return &vEnv[float32]{vMk_float32, []float32{float32(nan), -1, 0, 7, 8}}
	case "float32desc":
		return &vEnv[float32]{vMk_float32desc, []float32{float32(nan), 8, 7, 0, -1}}
	case "float64":
		return &vEnv[float64]{vMk_float64, []float64{nan, -1, 0, 7, 8}}
	case "float64desc":
		return &vEnv[float64]{vMk_float64desc, []float64{nan, 8, 7, 0, -1}}
	case "int":
		return &vEnv[int]{vMk_int, []int{math.MinInt64, -1, 0, 7, math.MaxInt64}}
	case "intdesc":
		return &vEnv[int]{vMk_intdesc, []int{math.MaxInt64, 7, 0, -1, math.MinInt64}}
	case "int64":
		return &vEnv[int64]{vMk_int64, []int64{math.MinInt64, -1, 0, 7, math.MaxInt64}}
	case "int64desc":
		return &vEnv[int64]{vMk_int64desc, []int64{math.MaxInt64, 7, 0, -1, math.MinInt64}}
	case "int32":
		return &vEnv[int32]{vMk_int32, []int32{math.MinInt32, -1, 0, 7, math.MaxInt32}}
	case "int32desc":
		return &vEnv[int32]{vMk_int32desc, []int32{math.MaxInt32, 7, 0, -1, math.MinInt32}}
	case "uint64":
		return &vEnv[uint64]{vMk_uint64, []uint64{0, 1, 7, 1 << 63, math.MaxUint64}}
	case "uint64desc":
		return &vEnv[uint64]{vMk_uint64desc, []uint64{math.MaxUint64, 1 << 63, 7, 1, 0}}
	case "uint32":
		return &vEnv[uint32]{vMk_uint32, []uint32{0, 1, 7, 1 << 31, math.MaxUint32}}
	case "uint32desc":
		return &vEnv[uint32]{vMk_uint32desc, []uint32{math.MaxUint32, 1 << 31, 7, 1, 0}}
	case "uint":
		return &vEnv[uint]{vMk_uint, []uint{0, 1, 7, 1 << 63, math.MaxUint64}}
	case "uintdesc":
		return &vEnv[uint]{vMk_uintdesc, []uint{math.MaxUint64, 1 << 63, 7, 1, 0}}
	}
	panic("unknown map type " + name)
}

// rank finds the position of a key in the table (NaN keys by being unequal to themselves).
func (v *vEnv[K]) rank(k K) int {
	r := -1
	for i := range v.keys {
		r = vIte(vOr(v.keys[i] == k, vAnd(v.keys[i] != v.keys[i], k != k)), i, r)
	}
	return r
}

const vMaxKeys = 5
const vMaxOps = 4

// vModel is the reference map over key ranks.
type vModel struct {
	has [vMaxKeys]bool
	val [vMaxKeys]int
}

// vCall is one call with its result.
type vCall struct {
	kind, key, val int
	res            int
	ok             bool
	calls          int // invocations of the lazy function
	done           bool
	after          [vMaxOps]bool // after[j]: call j had returned when this one began
	// Range: visits
	seen  [vMaxKeys]int
	sval  [vMaxKeys]int
	lastR int
	bad   bool
}

// exec performs a call on the real map.
func (v *vEnv[K]) exec(m vMap[K], c *vCall) {
	vOp()
	switch c.kind {
	case opStore:
		m.Store(v.keys[c.key], c.val)
	case opLoad:
		c.res, c.ok = m.Load(v.keys[c.key])
	case opLAD:
		c.res, c.ok = m.LoadAndDelete(v.keys[c.key])
	case opLOS:
		c.res, c.ok = m.LoadOrStore(v.keys[c.key], c.val)
	case opLazy:
		c.res, c.ok = m.LoadOrStoreLazy(v.keys[c.key], func() int { c.calls++; return c.val })
	case opDelete:
		c.ok = m.Delete(v.keys[c.key])
	case opRange:
		c.lastR = -1
		m.Range(func(k K, x int) bool {
			r := v.rank(k)
			c.bad = vOr(c.bad, r <= c.lastR)
			c.lastR = r
			for i := range v.keys {
				if i == r {
					c.seen[i]++
					c.sval[i] = x
				}
			}
			return true
		})
	case opLen:
		c.res = m.Len()
	}
	vObs("call", c.res, c.ok)
	if c.kind == opRange {
		for i := range v.keys {
			vObs("visit", c.sval[i], c.seen[i] > 0)
		}
	}
}

// apply runs c on the reference map and reports whether the recorded result is the right one.
// Only branch-free operations are used, so no paths are forked.
func (md *vModel) apply(c *vCall, n int) bool {
	ok := true
	for i := 0; i < n; i++ {
		at := c.key == i
		h, x := md.has[i], md.val[i]
		isS, isL, isD, isI, isX := c.kind == opStore, c.kind == opLoad, c.kind == opLAD, vOr(c.kind == opLOS, c.kind == opLazy), c.kind == opDelete
		// results
		rl := vAnd(vEqB(c.ok, h), vOr(vNot(h), c.res == x))   // Load, LoadAndDelete: value if present
		rl = vAnd(rl, vOr(h, c.res == 0))                     // and the zero value if absent
		ri := vAnd(vEqB(c.ok, h), c.res == vIte(h, x, c.val)) // insert-if-absent
		rx := vEqB(c.ok, h)
		good := vOr(isS, vOr(vAnd(vOr(isL, isD), rl), vOr(vAnd(isI, ri), vAnd(isX, rx))))
		ok = vAnd(ok, vOr(vNot(at), good))
		// effect
		nh := vOr(isS, vOr(isI, vAnd(h, vNot(vOr(isD, isX)))))
		nx := vIte(vOr(isS, vAnd(isI, vNot(h))), c.val, x)
		md.has[i] = vOr(vAnd(at, nh), vAnd(vNot(at), h))
		md.val[i] = vIte(at, nx, x)
	}
	return ok
}

func (md *vModel) count(n int) int {
	r := 0
	for i := 0; i < n; i++ {
		r = r + vIte(md.has[i], 1, 0)
	}
	return r
}

// lazyOK: the function ran exactly once iff the call stored.
func (c *vCall) lazyOK() bool {
	return vOr(c.kind != opLazy, vAnd(vOr(vNot(c.ok), c.calls == 0), vOr(c.ok, c.calls == 1)))
}

// prefill stores a symbolic subset of the first n keys, with values 10+i.
func (v *vEnv[K]) prefill(m vMap[K], n int, md *vModel) {
	for i := 0; i < n; i++ {
		if vBool("pre" + vItoa(i)) {
			vOp()
			m.Store(v.keys[i], 10+i)
			md.has[i] = true
			md.val[i] = 10 + i
		}
	}
}

// newMap makes a map with a symbolic subset of the first n keys. Before that, with parameter
// crowd, other keys of all heights come and go, and with parameter ghost a symbolic subset of
// the first n keys is stored, overwritten and deleted again.
func (v *vEnv[K]) newMap(n int, md *vModel) vMap[K] {
	m := v.used(n)
	v.prefill(m, n, md)
	return m
}

// used makes an empty map, with a past if the parameters ask for it.
func (v *vEnv[K]) used(n int) vMap[K] {
	m := v.mk()
	if k := vParamInt("crowd"); k > 0 {
		for i := 0; i < k; i++ {
			vLevels(1 << (i * 7 % 6))
			vOp()
			m.Store(v.crowdKey(i), i)
		}
		for i := 0; i < k; i++ {
			vOp()
			m.Delete(v.crowdKey(i * 5 % k))
		}
	}
	vLevels(vParamInt("levels"))
	if vParamInt("ghost") == 1 {
		for i := 0; i < n; i++ {
			if vBool("ghost" + vItoa(i)) {
				vOp()
				m.Store(v.keys[i], 5+i)
			}
		}
		for i := n - 1; i >= 0; i-- {
			vOp()
			m.Delete(v.keys[i])
		}
	}
	return m
}
