package skipmap

import "runtime"

func VHseq()   { vSelect(vParam("variant")).seq() }
func VHapart() { vSelect(vParam("variant")).apart() }
func VHstall() { vSelect(vParam("variant")).stall() }
func VHrng()   { vSelect(vParam("variant")).rng() }
func VHlenc()  { vSelect(vParam("variant")).lenc() }
func VHreent() { vSelect(vParam("variant")).reent() }
func VHpan()   { vSelect(vParam("variant")).pan() }
func VHindep() { vSelect(vParam("variant")).indep() }
func VHrace()  { vSelect(vParam("variant")).race() }
func VHcrowd() { vSelect(vParam("variant")).crowd() }
func VHcost()  { vSelect(vParam("variant")).cost() }

// vBoxed is a map of some type, used by key index.
type vBoxed interface {
	one(c *vCall, md *vModel, n int)
	call(c *vCall)
	agree(md *vModel, n int)
	fill(tag string, n, base int, md *vModel)
	nest(outer string, md *vModel, n int, body func())
}

type vBoxOf[K comparable] struct {
	v *vEnv[K]
	m vMap[K]
}

func (v *vEnv[K]) box() vBoxed { return &vBoxOf[K]{v, v.mk()} }

func (b *vBoxOf[K]) one(c *vCall, md *vModel, n int) { b.v.seqOne(b.m, c, md, n) }
func (b *vBoxOf[K]) call(c *vCall)                   { b.v.exec(b.m, c) }
func (b *vBoxOf[K]) agree(md *vModel, n int)         { b.v.agree(b.m, md, n) }
func (b *vBoxOf[K]) fill(tag string, n, base int, md *vModel) {
	for i := 0; i < n; i++ {
		if vBool(tag + vItoa(i)) {
			vOp()
			b.m.Store(b.v.keys[i], base+i)
			md.has[i], md.val[i] = true, base+i
		}
	}
}

// nest performs a call whose function runs body.
func (b *vBoxOf[K]) nest(outer string, md *vModel, n int, body func()) {
	if outer == "lazy" {
		c := &vCall{kind: opLazy, key: vPick("lazykey", 1<<n-1), val: 300}
		vOp()
		c.res, c.ok = b.m.LoadOrStoreLazy(b.v.keys[c.key], func() int {
			c.calls++
			body()
			return c.val
		})
		vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
		vAssert(md.apply(c, n), "result differs from the reference map")
		return
	}
	r := &vCall{kind: opRange, lastR: -1}
	vOp()
	b.m.Range(func(k K, x int) bool {
		q := b.v.rank(k)
		r.bad = vOr(r.bad, q <= r.lastR)
		if r.lastR < 0 {
			body()
		}
		r.lastR = q
		for i := 0; i < n; i++ {
			r.seen[i] = r.seen[i] + vIte(q == i, 1, 0)
			r.sval[i] = vIte(q == i, x, r.sval[i])
		}
		return true
	})
	vAssert(vNot(r.bad), "Range out of order")
	for i := 0; i < n; i++ {
		vAssert(vAnd(r.seen[i] == vIte(md.has[i], 1, 0), vOr(vNot(md.has[i]), r.sval[i] == md.val[i])), "Range differs from the reference map")
	}
}

// VHnest: the function passed to one map uses another map.
func VHnest() {
	n := vParamInt("nkeys")
	vLevels(vParamInt("levels"))
	other := vParam("other")
	if other == "" {
		other = vParam("variant")
	}
	m, m2 := vSelect(vParam("variant")).box(), vSelect(other).box()
	md, md2 := &vModel{}, &vModel{}
	m.fill("pre", n, 10, md)
	m2.fill("other", n, 20, md2)
	b := vScript("B", vParamInt("nb"), n, 200)
	ran := false
	m.nest(vParam("outer"), md, n, func() {
		ran = true
		for _, c := range b {
			m2.one(c, md2, n)
		}
	})
	if ran {
		vReach("callback ran")
	}
	m2.agree(md2, n)
	m.agree(md, n)
}

// VHcross: two maps of different types.
func VHcross() {
	n := vParamInt("nkeys")
	vLevels(vParamInt("levels"))
	m, m2 := vSelect(vParam("variant")).box(), vSelect(vParam("other")).box()
	md, md2 := &vModel{}, &vModel{}
	m.fill("pre", n, 10, md)
	m2.fill("other", n, 20, md2)
	a := vScript("A", vParamInt("na"), n, 100)
	b := vScript("B", vParamInt("nb"), n, 200)
	if s := vParam("sched"); s != "" {
		vPar(s, func() {
			for _, c := range a {
				m.call(c)
			}
		}, func() {
			for _, c := range b {
				m2.call(c)
			}
		})
		for _, c := range a {
			vAssert(md.apply(c, n), "a call was affected by another map")
		}
		for _, c := range b {
			vAssert(md2.apply(c, n), "a call was affected by another map")
		}
	} else {
		for i := 0; i < len(a) || i < len(b); i++ {
			if i < len(a) {
				m.one(a[i], md, n)
			}
			if i < len(b) {
				m2.one(b[i], md2, n)
			}
		}
	}
	m2.agree(md2, n)
	m.agree(md, n)
	m3 := vSelect(vParam("variant")).box()
	m3.agree(&vModel{}, n)
}

// seqOne performs c and compares its results with the reference map.
func (v *vEnv[K]) seqOne(m vMap[K], c *vCall, md *vModel, n int) {
	has, val := md.has, md.val
	v.exec(m, c)
	good := true
	for i := 0; i < n; i++ {
		good = vAnd(good, vAnd(vNot(c.bad), vAnd(c.seen[i] == vIte(has[i], 1, 0), vOr(vNot(has[i]), c.sval[i] == val[i]))))
	}
	isR, isN := c.kind == opRange, c.kind == opLen
	isP := vNot(vOr(isR, isN))
	vAssert(vOr(vNot(isR), good), "Range differs from the reference map")
	vAssert(vOr(vNot(isN), c.res == md.count(n)), "Len differs from the reference map")
	ok := md.apply(c, n)
	vAssert(vOr(vNot(isP), ok), "result differs from the reference map")
	vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
}

// seq: a script of calls by one goroutine.
func (v *vEnv[K]) seq() {
	n, na := vParamInt("nkeys"), vParamInt("na")
	md := &vModel{}
	m := v.newMap(n, md)
	for _, c := range vScript("A", na, n, 0) {
		v.seqOne(m, c, md, n)
	}
	v.agree(m, md, n)
}

// crowdKey gives keys other than those of the table.
func (v *vEnv[K]) crowdKey(i int) K {
	var k K
	switch p := interface{}(&k).(type) {
	case *int:
		*p = 100 + i
	case *int32:
		*p = int32(100 + i)
	case *int64:
		*p = int64(100 + i)
	case *uint:
		*p = uint(100 + i)
	case *uint32:
		*p = uint32(100 + i)
	case *uint64:
		*p = uint64(100 + i)
	case *float32:
		*p = float32(100 + i)
	case *float64:
		*p = float64(100 + i)
	case *string:
		*p = "aa" + vItoa(i)
	}
	return k
}

// crowd: the map has grown and shrunk, and holds many other keys, when the calls are made.
func (v *vEnv[K]) crowd() {
	n, total, keep := vParamInt("nkeys"), vParamInt("crowd"), vParamInt("keep")
	md := &vModel{}
	m := v.mk()
	for i := 0; i < total; i++ {
		vLevels(1 << (i * 7 % 6))
		j := i * 5 % total
		vOp()
		m.Store(v.crowdKey(j), j)
		vOp()
		x, ok := m.LoadOrStore(v.crowdKey(j), -1)
		vAssert(vAnd(ok, x == j), "a key that was stored is not found")
	}
	vAssert(m.Len() == total, "Len differs from the number of keys")
	for i := 0; i < total; i++ {
		vOp()
		m.Store(v.crowdKey(i), i+1000)
		if i >= keep {
			vOp()
			if i%2 == 0 {
				vAssert(m.Delete(v.crowdKey(i)), "a key that was stored is not found")
			} else {
				x, ok := m.LoadAndDelete(v.crowdKey(i))
				vAssert(vAnd(ok, x == i+1000), "a key that was stored is not found")
			}
		}
	}
	vLevels(vParamInt("levels"))
	v.prefill(m, n, md)
	for _, c := range vScript("A", vParamInt("na"), n, 0) {
		v.exec(m, c)
		vAssert(md.apply(c, n), "result differs from the reference map")
		vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
	}
	vAssert(m.Len() == keep+md.count(n), "Len differs from the number of keys")
	others, bad, first := 0, false, true
	var last K
	m.Range(func(k K, x int) bool {
		if v.rank(k) < 0 {
			others++
		}
		bad = vOr(bad, vAnd(vNot(first), k == last))
		last, first = k, false
		return true
	})
	vAssert(vAnd(others == keep, vNot(bad)), "Range does not visit every key once")
	for i := 0; i < keep; i++ {
		x, ok := m.Load(v.crowdKey(i))
		vAssert(vAnd(ok, x == i+1000), "a key that was stored is not found")
		vOp()
		vAssert(m.Delete(v.crowdKey(i)), "a key that was stored is not found")
	}
	v.agree(m, md, n)
}

// cost: in a map of many keys whose towers have the intended shape, no call takes many more
// atomic operations than the search path through the towers is long.
func (v *vEnv[K]) cost() {
	n, past := vParamInt("crowd"), vParamInt("past")
	m := v.mk()
	h := make([]int, n)
	for i := range h {
		h[i] = 1
		for j := i + 1; j%4 == 0 && h[i] < 16; j /= 4 {
			h[i]++
		}
	}
	top := 3
	for i := 0; i < n; i++ {
		j := (i*vParamInt("stride") + 7) % n
		vLevels(1 << (h[j] - 1))
		vOp()
		m.Store(v.costKey(2*j+1, n), j)
		if h[j] > top {
			top = h[j]
		}
	}
	if past > 0 {
		top = 16
	}
	for i := 0; i < past; i++ { // other keys, up to the highest towers, come and go
		vLevels(1 << (15 - i%4*5))
		vOp()
		m.Store(v.costKey(2*(i*5%n), n), i)
	}
	for i := 0; i < past; i++ {
		vOp()
		m.Delete(v.costKey(2*(i*5%n), n))
	}
	path := 0 // the longest search path: nodes passed, in either direction of the order
	for t := 0; t <= n; t++ {
		a, b, ah, bh := 0, 0, 0, 0
		for j := t - 1; j >= 0; j-- {
			if h[j] >= ah {
				a, ah = a+1, h[j]
			}
		}
		for j := t; j < n; j++ {
			if h[j] >= bh {
				b, bh = b+1, h[j]
			}
		}
		if a > path {
			path = a
		}
		if b > path {
			path = b
		}
	}
	vLevels(vParamInt("levels"))
	c := &vCall{kind: vPick("op", vParamInt("opsA0")), val: 500}
	// any key, or with more than 200 keys any of 8 runs of 32
	run := 32
	if n > 200 {
		run = 2 * n / 8
	}
	t := vInt("run", 0, 2*n/run)*run + vInt("at", 0, 31)
	keys := make([]K, 2*n/run*run+32)
	for i := range keys {
		keys[i] = v.costKey(i, n)
	}
	w := &vEnv[K]{v.mk, keys}
	c.key = t
	vOp()
	vCost()
	w.exec(m, c)
	vAssert(vCost() <= 3*(path+top)+40, "a call visits many more nodes than the towers need")
}

// costKey gives the i-th of many keys, in ascending order.
func (v *vEnv[K]) costKey(i, n int) K {
	var k K
	switch p := interface{}(&k).(type) {
	case *int:
		*p = i
	case *int64:
		*p = int64(i)
	case *int32:
		*p = int32(i)
	case *uint:
		*p = uint(i)
	case *uint32:
		*p = uint32(i)
	case *uint64:
		*p = uint64(i)
	case *float32:
		*p = float32(i)
	case *float64:
		*p = float64(i)
	case *string:
		*p = vItoa(100000 + i)
	}
	return k
}

// agree checks every read against the reference map.
func (v *vEnv[K]) agree(m vMap[K], md *vModel, n int) {
	vAssert(m.Len() == md.count(n), "Len differs from the reference map")
	r := &vCall{kind: opRange}
	v.exec(m, r)
	vAssert(vNot(r.bad), "Range out of order")
	for i := 0; i < n; i++ {
		vAssert(vAnd(r.seen[i] == vIte(md.has[i], 1, 0), vOr(vNot(md.has[i]), r.sval[i] == md.val[i])), "Range differs from the reference map")
		x, ok := m.Load(v.keys[i])
		vAssert(vAnd(vEqB(ok, md.has[i]), x == vIte(md.has[i], md.val[i], 0)), "Load differs from the reference map")
	}
}

// stall: the last goroutine reads while the others are stopped anywhere.
func (v *vEnv[K]) stall() {
	n := vParamInt("nkeys")
	pre := &vModel{}
	m := v.newMap(n, pre)
	var fs []func()
	for _, t := range []string{"A", "B"} {
		if k := vParamInt("n" + t); k > 0 {
			cs := vScript(t, k, n, 100)
			fs = append(fs, func() {
				for _, c := range cs {
					v.exec(m, c)
				}
			})
		}
	}
	r := vScript("R", vParamInt("nR"), n, 0)
	fs = append(fs, func() {
		for _, c := range r {
			v.exec(m, c)
		}
	})
	vStall(vParam("sched"), fs...)
	vReach("reader done")
}

// apart: the last goroutine calls while the others are stopped anywhere in calls on other keys.
// The keys of the masks must and absent are present and absent before; those of flat have
// towers of one node.
func (v *vEnv[K]) apart() {
	n := vParamInt("nkeys")
	m := v.used(n)
	for i := 0; i < n; i++ {
		if vParamInt("absent")&(1<<i) != 0 {
			continue
		}
		if vParamInt("must")&(1<<i) != 0 || vBool("pre"+vItoa(i)) {
			vLevels(vParamInt("levels"))
			if vParamInt("flat")&(1<<i) != 0 {
				vLevels(1)
			}
			vOp()
			m.Store(v.keys[i], 10+i)
		}
	}
	vLevels(vParamInt("fresh"))
	var fs []func()
	for _, t := range []string{"A", "B", "R"} {
		if k := vParamInt("n" + t); k > 0 {
			cs := vScript(t, k, n, 100)
			fs = append(fs, func() {
				for _, c := range cs {
					v.exec(m, c)
				}
			})
		}
	}
	vStall(vParam("sched"), fs...)
	vReach("call done")
}

// rng: one goroutine ranges, with calls of its own before and after, while another performs calls.
// For every key, the Range counts as one reading at some moment during the call.
func (v *vEnv[K]) rng() {
	n := vParamInt("nkeys")
	pre := &vModel{}
	m := v.newMap(n, pre)
	stop := -1
	if k := vParamInt("stop"); k > 0 {
		stop = vInt("stopAt", 0, k)
	}
	n1, n2 := vParamInt("nP"), vParamInt("nQ")
	before, then := vScript("P", n1, n, 100), vScript("Q", n2, n, 150)
	b := vScript("B", vParamInt("nb"), n, 200)
	other := v.second(n)
	r := &vCall{kind: opRange, lastR: -1}
	mine := append(append(append([]*vCall{}, before...), r), then...)
	late := make([][vMaxOps]bool, len(b)) // late[j][i]: mine[i] had returned when b[j] began
	visits := 0
	overrun := false
	vPar(vParam("sched"), func() {
		for i, c := range mine {
			if i > 0 {
				vYield()
			}
			for j, o := range b {
				c.after[j] = o.done
			}
			if c != r {
				v.exec(m, c)
				c.done = true
				continue
			}
			vOp()
			m.Range(func(k K, x int) bool {
				overrun = vOr(overrun, vAnd(stop >= 0, visits > stop))
				q := v.rank(k)
				r.bad = vOr(r.bad, q <= r.lastR)
				r.lastR = q
				for i := 0; i < n; i++ {
					r.seen[i] = r.seen[i] + vIte(q == i, 1, 0)
					r.sval[i] = vIte(q == i, x, r.sval[i])
				}
				visits++
				return visits-1 != stop
			})
			r.done = true
		}
	}, func() {
		for j, c := range b {
			if j > 0 {
				vYield()
			}
			for i, o := range mine {
				late[j][i] = o.done
			}
			v.exec(m, c)
			c.done = true
		}
		other.run()
	})
	other.check(n, true)
	for i := 0; i < n; i++ {
		vObs("visit", r.sval[i], r.seen[i] > 0)
	}
	vAssert(vNot(r.bad), "Range out of order, or twice the same key")
	vAssert(vNot(overrun), "Range went on after its function returned false")
	full := vOr(stop < 0, visits <= stop)
	fin := v.snapshot(m, n)
	for i := 0; i < n; i++ {
		vAssert(r.seen[i] <= 1, "Range visited a key twice")
		// the reading of key i
		l := &vCall{kind: opLoad, key: i, res: r.sval[i], ok: r.seen[i] > 0}
		skip := vAnd(vNot(full), vAnd(r.seen[i] == 0, i > r.lastR)) // stopped before this key
		any, anyValue := false, false
		for _, order := range vMerges(len(mine), len(b)) {
			md := &vModel{has: pre.has, val: pre.val}
			ok, good := true, true
			x, y := 0, 0
			for _, who := range order {
				if who == 0 {
					for j := y; j < len(b); j++ {
						ok = vAnd(ok, vNot(mine[x].after[j])) // b[j] comes later, so it had not returned
					}
					if mine[x] == r {
						good = md.apply(l, n)
					} else {
						ok = vAnd(ok, vOr(mine[x].key != i, md.apply(mine[x], n)))
					}
					x++
				} else {
					for j := x; j < len(mine); j++ {
						ok = vAnd(ok, vNot(late[y][j]))
					}
					ok = vAnd(ok, vOr(b[y].key != i, md.apply(b[y], n)))
					y++
				}
			}
			ok = vAnd(ok, vAnd(vEqB(md.has[i], fin.has[i]), vOr(vNot(fin.has[i]), md.val[i] == fin.val[i])))
			anyValue = vOr(anyValue, ok)
			any = vOr(any, vAnd(ok, vOr(good, skip)))
		}
		vAssert(anyValue, "the calls beside Range have no explanation by a sequential order")
		vAssert(any, "Range reported a value its key did not have during the call, or missed a key that was present throughout")
	}
}

// vMerges lists the ways to merge x steps of one goroutine (0) with y of another (1).
func vMerges(x, y int) [][]int {
	if x == 0 && y == 0 {
		return [][]int{{}}
	}
	var out [][]int
	if x > 0 {
		for _, m := range vMerges(x-1, y) {
			out = append(out, append([]int{0}, m...))
		}
	}
	if y > 0 {
		for _, m := range vMerges(x, y-1) {
			out = append(out, append([]int{1}, m...))
		}
	}
	return out
}

// lenc: Len beside calls of two goroutines.
func (v *vEnv[K]) lenc() {
	n := vParamInt("nkeys")
	pre := &vModel{}
	m := v.newMap(n, pre)
	a, b := vScript("A", vParamInt("na"), n, 100), vScript("B", vParamInt("nb"), n, 200)
	all := append(append([]*vCall{}, a...), b...)
	l := &vCall{kind: opLen}
	late := make([]bool, len(all))
	run := func(cs []*vCall, off int) func() {
		return func() {
			for i, c := range cs {
				if i > 0 {
					vYield()
				}
				late[off+i] = l.done
				for j, o := range all {
					c.after[j] = o.done
				}
				v.exec(m, c)
				c.done = true
			}
		}
	}
	fs := []func(){run(a, 0), func() {
		for j, o := range all {
			l.after[j] = o.done
		}
		v.exec(m, l)
		l.done = true
	}}
	if len(b) > 0 {
		fs = append(fs, run(b, len(a)))
	}
	vPar(vParam("sched"), fs...)
	vAssert(l.res >= 0, "Len is negative")
	any := false
	for _, p := range vOrders(len(all)) {
		md := &vModel{has: pre.has, val: pre.val}
		ok := true
		var base, low, high [vMaxKeys]int
		for i := 0; i < n; i++ {
			base[i] = vIte(pre.has[i], 1, 0)
		}
		for i, q := range p {
			for j := i + 1; j < len(p); j++ {
				ok = vAnd(ok, vNot(all[q].after[p[j]]))
			}
			was := md.has
			ok = vAnd(ok, md.apply(all[q], n))
			for k := 0; k < n; k++ {
				d := vIte(md.has[k], 1, 0) - vIte(was[k], 1, 0)
				// a call that had returned counts, one that began later does not, others may or may not
				base[k] = base[k] + vIte(l.after[q], d, 0)
				maybe := vNot(vOr(l.after[q], late[q]))
				low[k] = low[k] + vIte(vAnd(maybe, d < 0), d, 0)
				high[k] = high[k] + vIte(vAnd(maybe, d > 0), d, 0)
			}
		}
		lo, hi := 0, 0
		for k := 0; k < n; k++ {
			x, y := base[k]+low[k], base[k]+high[k]
			lo = lo + vIte(x < 0, 0, x)
			hi = hi + vIte(y > 1, 1, y)
		}
		any = vOr(any, vAnd(ok, vAnd(lo <= l.res, l.res <= hi)))
	}
	vAssert(any, "Len is not between the fewest and the most keys the map can have held")
	fin := v.snapshot(m, n)
	vAssert(m.Len() == fin.count(n), "Len differs from the number of keys when idle")
}

// reent: calls made by the functions passed to Range and LoadOrStoreLazy.
func (v *vEnv[K]) reent() {
	n := vParamInt("nkeys")
	md := &vModel{}
	m := v.newMap(n, md)
	cs := vScript("A", vParamInt("na"), n, 100)
	other := v.second(n)
	if vParam("outer") == "lazy" {
		// the function may read
		key := vPick("lazykey", vParamInt("keysL"))
		c := &vCall{kind: opLazy, key: key, val: 300}
		vOp()
		c.res, c.ok = m.LoadOrStoreLazy(v.keys[key], func() int {
			c.calls++
			for _, x := range cs {
				v.seqOne(m, x, md, n)
			}
			return c.val
		})
		vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
		vAssert(md.apply(c, n), "result differs from the reference map")
		v.agree(m, md, n)
		return
	}
	at := vInt("at", 0, vParamInt("visits")-1)
	visits, last, bad, wrong, ran := 0, -1, false, false, false
	var seen, through [vMaxKeys]bool
	through = md.has
	vOp()
	m.Range(func(k K, x int) bool {
		q := v.rank(k)
		bad = vOr(bad, q <= last)
		last = q
		for i := 0; i < n; i++ {
			seen[i] = vOr(seen[i], q == i)
			wrong = vOr(wrong, vAnd(q == i, vOr(vNot(md.has[i]), md.val[i] != x)))
		}
		if vOr(visits == at, vParamInt("every") == 1) {
			for _, c := range cs {
				c = &vCall{kind: c.kind, key: c.key, val: c.val} // the callback may run again
				if vParamInt("self") == 1 {
					c.key = q
				}
				v.seqOne(m, c, md, n)
				for i := 0; i < n; i++ {
					through[i] = vAnd(through[i], md.has[i])
				}
			}
			other.runSeq(n)
			ran = true
		}
		visits++
		return true
	})
	vAssert(vNot(bad), "Range out of order, or twice the same key")
	vAssert(vNot(wrong), "Range reported a key or value that is not in the map")
	for i := 0; i < n; i++ {
		vAssert(vOr(vNot(through[i]), seen[i]), "Range missed a key that was present throughout")
	}
	if ran {
		vReach("callback ran")
	}
	other.check(n, false)
	v.agree(m, md, n)
}

// pan: callbacks that panic or end their goroutine.
func (v *vEnv[K]) pan() {
	n := vParamInt("nkeys")
	md := &vModel{}
	m := v.newMap(n, md)
	key := vPick("pankey", vParamInt("keysP"))
	how, where := vParam("how"), vParam("where")
	called, caught, after := 0, false, false
	boom := func() {
		called++
		if how == "goexit" {
			runtime.Goexit()
		}
		panic("callback")
	}
	f := func() {
		defer func() {
			if how == "panic" {
				caught = recover() != nil
			}
		}()
		vOp()
		if where == "lazy" {
			m.LoadOrStoreLazy(v.keys[key], func() int { boom(); return 1 })
		} else {
			m.Range(func(k K, x int) bool {
				if v.rank(k) == key {
					boom()
				}
				return true
			})
		}
		after = true
	}
	cs := vScript("A", vParamInt("na"), n, 100)
	if vParamInt("nb") > 0 {
		// another goroutine is at work meanwhile
		b := vScript("B", vParamInt("nb"), n, 200)
		had := md.has[key]
		vPar(vParam("sched"), f, func() {
			for _, c := range b {
				v.exec(m, c)
			}
		})
		for _, c := range b {
			vAssert(md.apply(c, n), "a call beside the panicking one returned a wrong result")
		}
		_ = had
	} else {
		if how == "goexit" {
			vPar("a", f)
		} else {
			f()
		}
		present := false
		for i := 0; i < n; i++ {
			present = vOr(present, vAnd(key == i, md.has[i]))
		}
		want := vEqB(present, where == "range")
		vAssert(called == vIte(want, 1, 0), "callback called at the wrong time")
	}
	vAssert(vEqB(after, called == 0), "the call returned although its callback did not")
	if how == "panic" {
		vAssert(vEqB(caught, called > 0), "the panic did not reach the caller")
	}
	// everything works as if the call had not happened
	for _, c := range cs {
		v.seqOne(m, c, md, n)
	}
	v.agree(m, md, n)
	for i := 0; i < n; i++ {
		vOp()
		m.Store(v.keys[i], 50+i)
		md.has[i], md.val[i] = true, 50+i
	}
	v.agree(m, md, n)
}

// indep: two maps of one kind.
func (v *vEnv[K]) indep() {
	n := vParamInt("nkeys")
	md, md2 := &vModel{}, &vModel{}
	vLevels(vParamInt("levels"))
	m := v.mk()
	m2 := v.mk()
	for i := 0; i < n; i++ {
		if vBool("pre" + vItoa(i)) {
			vOp()
			m.Store(v.keys[i], 10+i)
			md.has[i], md.val[i] = true, 10+i
		}
		if vBool("other" + vItoa(i)) {
			vOp()
			m2.Store(v.keys[i], 20+i)
			md2.has[i], md2.val[i] = true, 20+i
		}
	}
	a := vScript("A", vParamInt("na"), n, 100)
	b := vScript("B", vParamInt("nb"), n, 200)
	if s := vParam("sched"); s != "" {
		vPar(s, func() {
			for _, c := range a {
				v.exec(m, c)
			}
		}, func() {
			for _, c := range b {
				v.exec(m2, c)
			}
		})
		for _, c := range a {
			vAssert(md.apply(c, n), "a call was affected by another map")
		}
		for _, c := range b {
			vAssert(md2.apply(c, n), "a call was affected by another map")
		}
	} else {
		for _, c := range a {
			v.seqOne(m, c, md, n)
		}
		for _, c := range b {
			v.seqOne(m2, c, md2, n)
		}
	}
	v.agree(m2, md2, n)
	v.agree(m, md, n)
	m3 := v.mk()
	v.agree(m3, &vModel{}, n)
}

// vOther is a second map of the same type, and calls on it.
type vOther[K comparable] struct {
	v  *vEnv[K]
	m  vMap[K]
	md *vModel
	cs []*vCall
}

func (v *vEnv[K]) second(n int) *vOther[K] {
	o := &vOther[K]{v: v, md: &vModel{}}
	if nd := vParamInt("nD"); nd > 0 {
		o.m = v.mk()
		for i := 0; i < n; i++ {
			if vBool("other" + vItoa(i)) {
				vOp()
				o.m.Store(v.keys[i], 20+i)
				o.md.has[i], o.md.val[i] = true, 20+i
			}
		}
		o.cs = vScript("D", nd, n, 500)
	}
	return o
}

func (o *vOther[K]) run() {
	for _, c := range o.cs {
		vYield()
		o.v.exec(o.m, c)
	}
}

func (o *vOther[K]) runSeq(n int) {
	for _, c := range o.cs {
		o.v.seqOne(o.m, &vCall{kind: c.kind, key: c.key, val: c.val}, o.md, n)
	}
}

// check: if the calls ran beside others, their results are compared now.
func (o *vOther[K]) check(n int, ran bool) {
	if o.m == nil {
		return
	}
	if ran {
		for _, c := range o.cs {
			vAssert(o.md.apply(c, n), "a call was affected by another map")
		}
	}
	o.v.agree(o.m, o.md, n)
}

// race: concurrent calls without any other communication.
func (v *vEnv[K]) race() {
	n := vParamInt("nkeys")
	md := &vModel{}
	m := v.newMap(n, md)
	a, b := vScript("A", vParamInt("na"), n, 100), vScript("B", vParamInt("nb"), n, 200)
	run := func(cs []*vCall) func() {
		return func() {
			for _, c := range cs {
				v.exec(m, c)
			}
		}
	}
	if nc := vParamInt("nc"); nc > 0 {
		vPar(vParam("sched"), run(a), run(b), run(vScript("C", nc, n, 300)))
		return
	}
	vPar(vParam("sched"), run(a), run(b))
}

// VHcmp: the user's comparison panics, or ends the goroutine, at any of its calls.
func VHcmp() {
	n, how := vParamInt("nkeys"), vParam("how")
	armed, fired, left := false, false, 0
	less := func(a, b int) bool {
		if armed {
			if left == 0 {
				armed, fired = false, true
				if how == "goexit" {
					runtime.Goexit()
				}
				panic("comparison")
			}
			left--
		}
		return a < b
	}
	v := &vEnv[int]{func() vMap[int] { return NewFunc[int, int](less) }, nil}
	for i := 0; i < n; i++ {
		v.keys = append(v.keys, i*10)
	}
	md := &vModel{}
	m := v.newMap(n, md)
	c := &vCall{kind: vPick("op", vParamInt("op")), key: vPick("key", vParamInt("keysP")), val: 500}
	cs := vScript("A", vParamInt("na"), n, 100)
	left = vInt("left", 0, vParamInt("max"))
	armed = true
	caught, done := false, false
	f := func() {
		defer func() {
			if how == "panic" {
				caught = recover() != nil
			}
		}()
		v.exec(m, c)
		done = true
	}
	if how == "goexit" {
		vPar("a", f)
	} else {
		f()
	}
	armed = false
	vAssert(vEqB(done, vNot(fired)), "the call returned although its comparison did not")
	if how == "panic" {
		vAssert(vEqB(caught, fired), "the panic did not reach the caller")
	}
	vAssert(vOr(vNot(fired), c.calls == 0), "the lazy function was called although the key was not searched")
	if done {
		vAssert(vAnd(md.apply(c, n), c.lazyOK()), "result differs from the reference map")
	}
	// everything works as if the call had not happened
	for _, c := range cs {
		v.seqOne(m, c, md, n)
	}
	v.agree(m, md, n)
	for i := 0; i < n; i++ {
		vOp()
		m.Delete(v.keys[i])
		md.has[i] = false
	}
	v.agree(m, md, n)
	for i := 0; i < n; i++ {
		vOp()
		m.Store(v.keys[i], 50+i)
		md.has[i], md.val[i] = true, 50+i
	}
	v.agree(m, md, n)
}
