package skipmap

// ---- concurrent scenario: linearizability, winners, callbacks, final state ----

func VHconc() { vSelect(vParam("variant")).conc() }

// script gives goroutine t its calls: kinds from the masks in parameter "opsT", e.g. "opsA0".
func vScript(t string, n int, nkeys int, val int) []*vCall {
	cs := make([]*vCall, n)
	for i := range cs {
		id := t + vItoa(i)
		cs[i] = &vCall{kind: vPick("op"+id, vParamInt("ops"+id)), key: vPick("key"+id, vParamInt("keys"+t)), val: val + i}
	}
	return cs
}

func (v *vEnv[K]) body(m vMap[K], mine []*vCall, all []*vCall) {
	for i, c := range mine {
		if i > 0 {
			vYield()
		}
		for j, o := range all {
			c.after[j] = o.done
		}
		v.exec(m, c)
		c.done = true
	}
}

// vOrders lists the permutations of n calls.
func vOrders(n int) [][]int {
	switch n {
	case 1:
		return [][]int{{0}}
	case 2:
		return [][]int{{0, 1}, {1, 0}}
	case 3:
		return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	var out [][]int
	for _, p := range vOrders(3) {
		for pos := 0; pos <= 3; pos++ {
			q := make([]int, 0, 4)
			for i := 0; i < 4; i++ {
				if i < pos {
					q = append(q, p[i])
				} else if i == pos {
					q = append(q, 3)
				} else {
					q = append(q, p[i-1])
				}
			}
			out = append(out, q)
		}
	}
	return out
}

// linear reports whether some order of the calls, respecting real time, explains their results and the final contents.
func vLinear(pre *vModel, all []*vCall, fin *vModel, n int) bool {
	any := false
	for _, p := range vOrders(len(all)) {
		md := &vModel{has: pre.has, val: pre.val}
		ok := true
		for i := range p {
			for j := i + 1; j < len(p); j++ {
				ok = vAnd(ok, vNot(all[p[i]].after[p[j]]))
			}
			ok = vAnd(ok, md.apply(all[p[i]], n))
		}
		for i := 0; i < n; i++ {
			ok = vAnd(ok, vEqB(md.has[i], fin.has[i]))
			ok = vAnd(ok, vOr(vNot(fin.has[i]), md.val[i] == fin.val[i]))
		}
		any = vOr(any, ok)
	}
	return any
}

// snapshot reads the contents with Load.
func (v *vEnv[K]) snapshot(m vMap[K], n int) *vModel {
	md := &vModel{}
	for i := 0; i < n; i++ {
		md.val[i], md.has[i] = m.Load(v.keys[i])
		vObs("final", md.val[i], md.has[i])
	}
	return md
}

func (v *vEnv[K]) conc() {
	n := vParamInt("nkeys")
	na, nb := vParamInt("na"), vParamInt("nb")
	pre := &vModel{}
	m := v.newMap(n, pre)
	a, b := vScript("A", na, n, 100), vScript("B", nb, n, 200)
	all := append(append([]*vCall{}, a...), b...)
	other := v.second(n)
	if nc := vParamInt("nc"); nc > 0 {
		c := vScript("C", nc, n, 300)
		all = append(all, c...)
		vPar(vParam("sched"), func() { v.body(m, a, all) }, func() { v.body(m, b, all) }, func() { v.body(m, c, all) })
	} else {
		vPar(vParam("sched"), func() { v.body(m, a, all) }, func() { v.body(m, b, all); other.run() })
	}
	other.check(n, true)
	want := vParam("check")
	if want == "none" {
		if vParamInt("post") == 1 {
			v.probe(m, nil, n)
		}
		return
	}
	fin := v.snapshot(m, n)
	for _, c := range all {
		for j := range all {
			vObs("after", j, c.after[j])
		}
	}
	if want == "lin" {
		vAssert(vLinear(pre, all, fin, n), "results have no explanation by a sequential order")
	}
	if want == "lazy" {
		for _, c := range all {
			vAssert(c.lazyOK(), "lazy function not called exactly once iff stored")
			vAssert(vOr(c.kind != opLazy, vOr(c.ok, c.res == c.val)), "lazy call that stored returned another value")
		}
		// "stored" means stored: the results and the contents fit a sequential order
		vAssert(vLinear(pre, all, fin, n), "lazy calls stored or loaded in a way that no sequential order explains")
	}
	if want == "win" {
		vWinners(pre, all, fin, n)
	}
	if want == "final" {
		v.finale(m, fin, n)
	}
	if vParamInt("post") == 1 {
		v.probe(m, fin, n)
	}
}

// probe uses the map that the concurrent calls left behind: every key is deleted and added again.
func (v *vEnv[K]) probe(m vMap[K], fin *vModel, n int) {
	for i := 0; i < n; i++ {
		vOp()
		ok := m.Delete(v.keys[i])
		vObs("deleted", i, ok)
		if fin != nil {
			vAssert(vEqB(ok, fin.has[i]), "afterwards, Delete does not find exactly the present keys")
		}
	}
	for i := 0; i < n; i++ {
		vOp()
		x, ok := m.LoadOrStore(v.keys[i], 400+i)
		vObs("again", x, ok)
		if fin != nil {
			vAssert(vAnd(vNot(ok), x == 400+i), "afterwards, a deleted key cannot be added again")
		}
	}
	for i := 0; i < n; i++ {
		x, ok := m.Load(v.keys[i])
		if fin != nil {
			vAssert(vAnd(ok, x == 400+i), "afterwards, a key added again is not found")
		}
	}
}

// vWinners checks conservation of insertions and removals per key.
func vWinners(pre *vModel, all []*vCall, fin *vModel, n int) {
	for i := 0; i < n; i++ {
		bal, maxIns := vIte(pre.has[i], 1, 0), 0
		stores := 0
		for _, c := range all {
			at := c.key == i
			ins := vAnd(at, vAnd(vOr(c.kind == opLOS, c.kind == opLazy), vNot(c.ok)))
			rem := vAnd(at, vAnd(vOr(c.kind == opLAD, c.kind == opDelete), c.ok))
			bal = bal + vIte(ins, 1, 0) - vIte(rem, 1, 0)
			stores = stores + vIte(vAnd(at, c.kind == opStore), 1, 0)
			maxIns = maxIns + vIte(ins, 1, 0)
		}
		end := vIte(fin.has[i], 1, 0)
		// a Store adds one insertion or none
		vAssert(vAnd(bal <= end, end <= bal+stores), "successful insertions and removals of a key do not balance")
		// losers of insert-if-absent see the winner's value when nothing else touched the key
		for _, c := range all {
			for _, d := range all {
				if c == d {
					continue
				}
				cw := vAnd(vOr(c.kind == opLOS, c.kind == opLazy), vAnd(c.key == i, vNot(c.ok)))
				dl := vAnd(vOr(d.kind == opLOS, d.kind == opLazy), vAnd(d.key == i, d.ok))
				only := true
				for _, o := range all {
					only = vAnd(only, vOr(o.key != i, vOr(o.kind == opLOS, vOr(o.kind == opLazy, o.kind == opLoad))))
				}
				vAssert(vNot(vAnd(only, vAnd(vAnd(cw, dl), d.res != c.val))), "loser of insert-if-absent did not get the stored value")
				vAssert(vNot(vAnd(only, vAnd(cw, vOr(vNot(fin.has[i]), fin.val[i] != c.val)))), "inserted value is not in the map")
			}
		}
	}
}

// finale checks the map left behind: Len, Range and Load agree, every key can be deleted and stored again.
func (v *vEnv[K]) finale(m vMap[K], fin *vModel, n int) {
	vAssert(m.Len() == fin.count(n), "Len differs from the number of keys when idle")
	r := &vCall{kind: opRange}
	v.exec(m, r)
	vAssert(vNot(r.bad), "Range out of order")
	for i := 0; i < n; i++ {
		vAssert(r.seen[i] == vIte(fin.has[i], 1, 0), "Range does not visit exactly the present keys")
		vAssert(vOr(vNot(fin.has[i]), r.sval[i] == fin.val[i]), "Range reports a wrong value")
	}
	for i := 0; i < n; i++ {
		ok := m.Delete(v.keys[i])
		vAssert(vEqB(ok, fin.has[i]), "Delete does not report the presence of the key")
	}
	vAssert(m.Len() == 0, "Len is not zero after deleting every key")
	for i := 0; i < n; i++ {
		_, ok := m.Load(v.keys[i])
		vAssert(vNot(ok), "key present after deletion")
	}
}
