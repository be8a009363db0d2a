package skipmap

// ---- arbitrary keys of the key type ----

type vOrd interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

// The documented orders; NaN is equal to NaN and before everything else.
func vUp[K vOrd](a, b K) bool   { return vOr(a < b, vAnd(a != a, b == b)) }
func vDown[K vOrd](a, b K) bool { return vOr(a > b, vAnd(a != a, b == b)) }
func vSame[K vOrd](a, b K) bool { return vOr(a == b, vAnd(a != a, b != b)) }

type (
	vNamedInt    int16
	vNamedString string
	vNamedFloat  float32
)

func VHkeys() {
	inst := vParam("inst")
	switch vParam("variant") {
	case "ordered":
		switch inst {
		case "int":
			vKeys[int](New[int, int](), vUp[int])
		case "int8":
			vKeys[int8](New[int8, int](), vUp[int8])
		case "int16":
			vKeys[vNamedInt](New[vNamedInt, int](), vUp[vNamedInt])
		case "int32":
			vKeys[int32](New[int32, int](), vUp[int32])
		case "int64":
			vKeys[int64](New[int64, int](), vUp[int64])
		case "uint":
			vKeys[uint](New[uint, int](), vUp[uint])
		case "uint8":
			vKeys[uint8](New[uint8, int](), vUp[uint8])
		case "uint16":
			vKeys[uint16](New[uint16, int](), vUp[uint16])
		case "uint32":
			vKeys[uint32](New[uint32, int](), vUp[uint32])
		case "uint64":
			vKeys[uint64](New[uint64, int](), vUp[uint64])
		case "uintptr":
			vKeys[uintptr](New[uintptr, int](), vUp[uintptr])
		case "float32":
			vKeys[vNamedFloat](New[vNamedFloat, int](), vUp[vNamedFloat])
		case "float64":
			vKeys[float64](New[float64, int](), vUp[float64])
		case "string":
			vKeys[vNamedString](New[vNamedString, int](), vUp[vNamedString])
		}
	case "ordereddesc":
		switch inst {
		case "int":
			vKeys[int](NewDesc[int, int](), vDown[int])
		case "int8":
			vKeys[int8](NewDesc[int8, int](), vDown[int8])
		case "int16":
			vKeys[vNamedInt](NewDesc[vNamedInt, int](), vDown[vNamedInt])
		case "int32":
			vKeys[int32](NewDesc[int32, int](), vDown[int32])
		case "int64":
			vKeys[int64](NewDesc[int64, int](), vDown[int64])
		case "uint":
			vKeys[uint](NewDesc[uint, int](), vDown[uint])
		case "uint8":
			vKeys[uint8](NewDesc[uint8, int](), vDown[uint8])
		case "uint16":
			vKeys[uint16](NewDesc[uint16, int](), vDown[uint16])
		case "uint32":
			vKeys[uint32](NewDesc[uint32, int](), vDown[uint32])
		case "uint64":
			vKeys[uint64](NewDesc[uint64, int](), vDown[uint64])
		case "uintptr":
			vKeys[uintptr](NewDesc[uintptr, int](), vDown[uintptr])
		case "float32":
			vKeys[vNamedFloat](NewDesc[vNamedFloat, int](), vDown[vNamedFloat])
		case "float64":
			vKeys[float64](NewDesc[float64, int](), vDown[float64])
		case "string":
			vKeys[vNamedString](NewDesc[vNamedString, int](), vDown[vNamedString])
		}
	case "orderedfloat":
		vKeys[float64](New[float64, int](), vUp[float64])
	case "orderedstring":
		vKeys[string](New[string, int](), vUp[string])
	case "func":
		vKeys[int](NewFunc[int, int](func(a, b int) bool { return a > b }), vDown[int])
	case "string":
		vKeys[string](NewString[int](), vUp[string])
	case "stringdesc":
		vKeys[string](NewStringDesc[int](), vDown[string])
	case "float32":
		vKeys[float32](NewFloat32[int](), vUp[float32])
	case "float32desc":
		vKeys[float32](NewFloat32Desc[int](), vDown[float32])
	case "float64":
		vKeys[float64](NewFloat64[int](), vUp[float64])
	case "float64desc":
		vKeys[float64](NewFloat64Desc[int](), vDown[float64])
	case "int":
		vKeys[int](NewInt[int](), vUp[int])
	case "intdesc":
		vKeys[int](NewIntDesc[int](), vDown[int])
	case "int64":
		vKeys[int64](NewInt64[int](), vUp[int64])
	case "int64desc":
		vKeys[int64](NewInt64Desc[int](), vDown[int64])
	case "int32":
		vKeys[int32](NewInt32[int](), vUp[int32])
	case "int32desc":
		vKeys[int32](NewInt32Desc[int](), vDown[int32])
	case "uint64":
		vKeys[uint64](NewUint64[int](), vUp[uint64])
	case "uint64desc":
		vKeys[uint64](NewUint64Desc[int](), vDown[uint64])
	case "uint32":
		vKeys[uint32](NewUint32[int](), vUp[uint32])
	case "uint32desc":
		vKeys[uint32](NewUint32Desc[int](), vDown[uint32])
	case "uint":
		vKeys[uint](NewUint[int](), vUp[uint])
	case "uintdesc":
		vKeys[uint](NewUintDesc[int](), vDown[uint])
	default:
		panic("map type")
	}
}

// vKeys stores arbitrary keys and compares every read with the documented order.
func vKeys[K vOrd](m vMap[K], less func(a, b K) bool) {
	vLevels(vParamInt("levels"))
	n := vParamInt("nkeys")
	ks := make([]K, n)
	var rep, val [vMaxKeys]int // rep[i]: the first key equal to key i
	var gone [vMaxKeys]bool
	for i := range ks {
		ks[i] = vNondet[K]("k" + vItoa(i))
		rep[i] = i
		for j := i - 1; j >= 0; j-- {
			rep[i] = vIte(vSame(ks[i], ks[j]), j, rep[i])
		}
	}
	stored := n - vParamInt("probes")
	for i := 0; i < stored; i++ {
		vOp()
		if vParamInt("put") == opStore {
			m.Store(ks[i], 10+i)
			for j := 0; j <= i; j++ {
				val[j] = vIte(rep[i] == j, 10+i, val[j])
			}
			continue
		}
		val[i] = vIte(rep[i] == i, 10+i, 0)
		want := 0
		for j := 0; j <= i; j++ {
			want = vIte(rep[i] == j, val[j], want)
		}
		x, loaded := 0, false
		if vParamInt("put") == opLOS {
			x, loaded = m.LoadOrStore(ks[i], 10+i)
		} else {
			x, loaded = m.LoadOrStoreLazy(ks[i], func() int { return 10 + i })
		}
		vAssert(vAnd(vEqB(loaded, rep[i] != i), x == want), "insert-if-absent does not find an equal key")
	}
	// one of the keys may be deleted again
	if vParamInt("del") > 0 {
		d := vInt("d", 0, n-1)
		for i := 0; i < n; i++ {
			if d == i {
				present := false
				for j := 0; j < stored; j++ {
					present = vOr(present, rep[i] == j)
				}
				vOp()
				if vParamInt("del") == 1 {
					vAssert(vEqB(m.Delete(ks[i]), present), "Delete does not find an equal key")
				} else {
					x, ok := m.LoadAndDelete(ks[i])
					want := 0
					for j := 0; j < stored; j++ {
						want = vIte(rep[i] == j, val[j], want)
					}
					vAssert(vAnd(vEqB(ok, present), x == want), "LoadAndDelete does not find an equal key")
				}
				for j := 0; j < n; j++ {
					gone[j] = rep[i] == j
				}
			}
		}
	}
	count := 0
	for i := 0; i < stored; i++ {
		count = count + vIte(vAnd(rep[i] == i, vNot(gone[i])), 1, 0)
	}
	vAssert(m.Len() == count, "Len is not the number of different keys")
	for i := 0; i < n; i++ {
		has, want := false, 0
		for j := 0; j < stored; j++ {
			at := vAnd(rep[i] == j, vNot(gone[j]))
			has = vOr(has, at)
			want = vIte(at, val[j], want)
		}
		vOp()
		x, ok := m.Load(ks[i])
		vAssert(vAnd(vEqB(ok, has), x == want), "Load does not find the value of an equal key")
	}
	var last K
	visits := 0
	ordered, right := true, true
	var seen [vMaxKeys]int
	m.Range(func(k K, x int) bool {
		ordered = vAnd(ordered, vOr(visits == 0, less(last, k)))
		last = k
		visits++
		hit := false
		for j := 0; j < stored; j++ {
			at := vAnd(rep[j] == j, vSame(ks[j], k))
			hit = vOr(hit, vAnd(at, x == val[j]))
			seen[j] = seen[j] + vIte(at, 1, 0)
		}
		right = vAnd(right, hit)
		return true
	})
	vAssert(ordered, "Range does not follow the documented order")
	vAssert(right, "Range reports a wrong key or value")
	for j := 0; j < stored; j++ {
		vAssert(seen[j] == vIte(vAnd(rep[j] == j, vNot(gone[j])), 1, 0), "Range does not visit every key once")
	}
}

// ---- user-supplied orders ----

type vUserKey struct {
	id, pad int
}

// VHswo: keys are divided into classes in an arbitrary way; the comparison compares classes.
func VHswo() {
	vLevels(vParamInt("levels"))
	n := vParamInt("nkeys")
	cls := make([]int, n)
	ks := make([]vUserKey, n)
	for i := range ks {
		cls[i] = vInt("cls"+vItoa(i), 0, n-1)
		ks[i] = vUserKey{i + 1, 7}
	}
	strange := false
	classOf := func(k vUserKey) int {
		c := -1
		for i := range ks {
			c = vIte(k.id == i+1, cls[i], c)
		}
		strange = vOr(strange, vOr(c < 0, k.pad != 7))
		return c
	}
	m := NewFunc[vUserKey, int](func(a, b vUserKey) bool { return classOf(a) < classOf(b) })
	has, val := make([]bool, n), make([]int, n) // per class
	na := vParamInt("na")
	for o := 0; o < na; o++ {
		kind, key := vPick("op"+vItoa(o), vParamInt("ops"+vItoa(o))), vInt("key"+vItoa(o), 0, n-1)
		h, cur := false, 0
		var at [vMaxKeys]bool
		for c := 0; c < n; c++ {
			for i := 0; i < n; i++ {
				at[c] = vOr(at[c], vAnd(key == i, cls[i] == c))
			}
			h = vOr(h, vAnd(at[c], has[c]))
			cur = vIte(at[c], val[c], cur)
		}
		cur = vIte(h, cur, 0)
		x, ok := 0, false
		wantX, wantOK := 0, false
		vOp()
		switch kind {
		case opStore:
			m.Store(ks[key], 10+o)
		case opLoad:
			x, ok = m.Load(ks[key])
			wantX, wantOK = cur, h
		case opLAD:
			x, ok = m.LoadAndDelete(ks[key])
			wantX, wantOK = cur, h
		case opLOS:
			x, ok = m.LoadOrStore(ks[key], 10+o)
			wantX, wantOK = vIte(h, cur, 10+o), h
		case opLazy:
			x, ok = m.LoadOrStoreLazy(ks[key], func() int { return 10 + o })
			wantX, wantOK = vIte(h, cur, 10+o), h
		case opDelete:
			ok = m.Delete(ks[key])
			wantOK = h
		}
		vAssert(vAnd(vEqB(ok, wantOK), x == wantX), "result differs from a map over the equivalence classes")
		puts := vOr(kind == opStore, vOr(kind == opLOS, kind == opLazy))
		dels := vOr(kind == opDelete, kind == opLAD)
		sets := vOr(kind == opStore, vAnd(puts, vNot(h)))
		for c := 0; c < n; c++ {
			has[c] = vOr(vAnd(has[c], vNot(vAnd(at[c], dels))), vAnd(at[c], puts))
			val[c] = vIte(vAnd(at[c], sets), 10+o, val[c])
		}
	}
	count := 0
	for c := 0; c < n; c++ {
		count = count + vIte(has[c], 1, 0)
	}
	vAssert(m.Len() == count, "Len is not the number of classes present")
	last, bad := -1, false
	seen := make([]int, n)
	m.Range(func(k vUserKey, x int) bool {
		q := classOf(k)
		bad = vOr(bad, q <= last)
		last = q
		for c := 0; c < n; c++ {
			seen[c] = seen[c] + vIte(vAnd(q == c, x == val[c]), 1, 0)
		}
		return true
	})
	vAssert(vNot(bad), "Range does not follow the comparison")
	for c := 0; c < n; c++ {
		vAssert(seen[c] == vIte(has[c], 1, 0), "Range does not visit exactly the classes present, with their values")
	}
	vAssert(vNot(strange), "the comparison was given a key no caller passed in")
}

// VHswoc: as VHswo, with concurrent calls.
func VHswoc() {
	vLevels(vParamInt("levels"))
	n := vParamInt("nkeys")
	cls := make([]int, n)
	ks := make([]vUserKey, n)
	for i := range ks {
		cls[i] = vInt("cls"+vItoa(i), 0, n-1)
		ks[i] = vUserKey{i + 1, 7}
	}
	strange := false
	classOf := func(k vUserKey) int {
		c := -1
		for i := range ks {
			c = vIte(k.id == i+1, cls[i], c)
		}
		strange = vOr(strange, vOr(c < 0, k.pad != 7))
		return c
	}
	m := NewFunc[vUserKey, int](func(a, b vUserKey) bool { return classOf(a) < classOf(b) })
	pre := &vModel{}
	for i := range ks {
		if vBool("pre" + vItoa(i)) {
			vOp()
			m.Store(ks[i], 10+i)
			for c := 0; c < n; c++ {
				at := cls[i] == c
				pre.has[c] = vOr(pre.has[c], at)
				pre.val[c] = vIte(at, 10+i, pre.val[c])
			}
		}
	}
	all := append(vScript("A", vParamInt("na"), n, 100), vScript("B", vParamInt("nb"), n, 200)...)
	run := func(from, to int) func() {
		return func() {
			for i := from; i < to; i++ {
				if i > from {
					vYield()
				}
				c := all[i]
				for j, o := range all {
					c.after[j] = o.done
				}
				vOp()
				switch c.kind {
				case opStore:
					m.Store(ks[c.key], c.val)
				case opLoad:
					c.res, c.ok = m.Load(ks[c.key])
				case opLAD:
					c.res, c.ok = m.LoadAndDelete(ks[c.key])
				case opLOS:
					c.res, c.ok = m.LoadOrStore(ks[c.key], c.val)
				case opLazy:
					c.res, c.ok = m.LoadOrStoreLazy(ks[c.key], func() int { c.calls++; return c.val })
				case opDelete:
					c.ok = m.Delete(ks[c.key])
				}
				vObs("call", c.res, c.ok)
				c.done = true
			}
		}
	}
	vPar(vParam("sched"), run(0, vParamInt("na")), run(vParamInt("na"), len(all)))
	fin := &vModel{}
	for i := range ks {
		x, ok := m.Load(ks[i])
		vObs("final", x, ok)
		for c := 0; c < n; c++ {
			at := vAnd(cls[i] == c, ok)
			fin.has[c] = vOr(fin.has[c], at)
			fin.val[c] = vIte(at, x, fin.val[c])
		}
	}
	for _, c := range all {
		k := 0
		for i := range ks {
			k = vIte(c.key == i, cls[i], k)
		}
		c.key = k
		vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
	}
	vAssert(vLinear(pre, all, fin, n), "results have no explanation by a sequential order over the equivalence classes")
	vAssert(m.Len() == fin.count(n), "Len is not the number of classes present")
	last, bad := -1, false
	seen := make([]int, n)
	m.Range(func(k vUserKey, x int) bool {
		q := classOf(k)
		bad = vOr(bad, q <= last)
		last = q
		for c := 0; c < n; c++ {
			seen[c] = seen[c] + vIte(vAnd(q == c, x == fin.val[c]), 1, 0)
		}
		return true
	})
	vAssert(vNot(bad), "Range does not follow the comparison")
	for c := 0; c < n; c++ {
		vAssert(seen[c] == vIte(fin.has[c], 1, 0), "Range does not visit exactly the classes present, with their values")
	}
	vAssert(vNot(strange), "the comparison was given a key no caller passed in")
}

type vTree struct {
	next *vTree
	f    func()
	n    int
}

// VHexo: keys of types that cannot be compared with ==, or whose order has nothing to do with it.
// The second and third key are equivalent but different.
func VHexo() {
	switch vParam("inst") {
	case "slice":
		vExo[[]int]([]int{1}, []int{1, 2}, []int{3, 4}, []int{0, 0, 0}, func(a, b []int) bool { return len(a) < len(b) }, func(k []int) bool { return len(k) > 0 })
	case "func":
		mk := func(n int) func() int { return func() int { return n } }
		vExo[func() int](mk(1), mk(2), mk(2), mk(3), func(a, b func() int) bool { return a() < b() }, func(k func() int) bool { return k != nil })
	case "pointer":
		x := []int{1, 2, 2, 3}
		vExo[*int](&x[0], &x[1], &x[2], &x[3], func(a, b *int) bool { return *a < *b }, func(k *int) bool { return k != nil })
	case "interface":
		vExo[interface{}]([]int{5}, 2, "ab", [2][]int{}, func(a, b interface{}) bool { return vSize(a) < vSize(b) }, func(k interface{}) bool { return k != nil })
	case "struct":
		t := &vTree{n: 9}
		vExo[vTree](vTree{n: 1}, vTree{n: 2}, vTree{n: 2, next: t}, vTree{n: 3, f: func() {}}, func(a, b vTree) bool { return a.n < b.n }, func(k vTree) bool { return k.n > 0 })
	case "string":
		vExo[string]("zzz", "yb", "xa", "w", func(a, b string) bool { return len(a) > len(b) }, func(k string) bool { return k != "" })
	case "float":
		z := 0.0
		vExo[float64](-2, z, -z, 1, func(a, b float64) bool { return a < b }, func(k float64) bool { return true })
	case "array":
		vExo[[2]string]([2]string{"a", "b"}, [2]string{"b", "c"}, [2]string{"b", "d"}, [2]string{"c", "a"}, func(a, b [2]string) bool { return a[0] < b[0] }, func(k [2]string) bool { return k[0] != "" })
	}
}

func vSize(x interface{}) int {
	switch y := x.(type) {
	case []int:
		return len(y)
	case int:
		return y
	case string:
		return len(y)
	}
	return 3
}

func vExo[K any](k0, k1, k1b, k2 K, less func(a, b K) bool, valid func(K) bool) {
	vLevels(vParamInt("levels"))
	ks := []K{k0, k1, k1b, k2}
	strange := false
	m := NewFunc[K, int](func(a, b K) bool {
		if !valid(a) || !valid(b) {
			strange = true
			return false
		}
		return less(a, b)
	})
	md := &vModel{}
	na := vParamInt("na")
	for o := 0; o < na; o++ {
		key := vInt("key"+vItoa(o), 0, 3)
		c := &vCall{kind: vPick("op"+vItoa(o), vParamInt("ops")), val: 10 + o}
		c.key = vIte(key == 3, 2, vIte(key == 0, 0, 1))
		vOp()
		switch c.kind {
		case opStore:
			m.Store(ks[key], c.val)
		case opLoad:
			c.res, c.ok = m.Load(ks[key])
		case opLAD:
			c.res, c.ok = m.LoadAndDelete(ks[key])
		case opLOS:
			c.res, c.ok = m.LoadOrStore(ks[key], c.val)
		case opLazy:
			c.res, c.ok = m.LoadOrStoreLazy(ks[key], func() int { c.calls++; return c.val })
		case opDelete:
			c.ok = m.Delete(ks[key])
		}
		vAssert(md.apply(c, 3), "result differs from a map over the equivalence classes")
		vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
	}
	vAssert(m.Len() == md.count(3), "Len is not the number of classes present")
	visits, bad, right := 0, false, true
	var last K
	m.Range(func(k K, x int) bool {
		if visits > 0 && !less(last, k) {
			bad = true
		}
		last = k
		visits++
		q := 1
		if less(k, k1) {
			q = 0
		} else if less(k1, k) {
			q = 2
		}
		for i := 0; i < 3; i++ {
			right = vAnd(right, vOr(q != i, vAnd(md.has[i], md.val[i] == x)))
		}
		return true
	})
	vAssert(vNot(bad), "Range does not follow the comparison")
	vAssert(vAnd(right, visits == md.count(3)), "Range does not visit exactly the classes present, with their values")
	vAssert(vNot(strange), "the comparison was given a key no caller passed in")
}
