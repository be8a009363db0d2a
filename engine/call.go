package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction; true: the state was consumed.
func (e *Eng) call(st *State, f *Frame, x *ssa.Call) bool {
	c := &x.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.eval(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, ok := e.builtin(st, f, b.Name(), c, args, x)
		if !ok {
			return true
		}
		if v != nil {
			e.setReg(f, x, v)
		}
		f.idx++
		return false
	}
	return e.doCall(st, x, c, e.eval(f, c.Value), args, false, x)
}

type target struct {
	g     Lit
	fn    *ssa.Function
	binds []Val
	recv  Val
}

// doCall calls a function value; true: the state was consumed.
func (e *Eng) doCall(st *State, call ssa.CallInstruction, c *ssa.CallCommon, fv Val, args []Val, isDefer bool, site ssa.Instruction) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		_, ok := e.builtin(st, st.own(), b.Name(), c, args, site)
		if ok {
			e.q.add(st)
		}
		return true
	}
	if s, ok := fv.(*Sum); !ok {
		unsup("call of %T", fv)
	} else {
		fv = e.restrict(s, st.g)
	}
	p, ok := e.nonNil(st, fv, site, "call")
	if !ok {
		return true
	}
	var ts []*target
	for _, en := range p.e {
		g := e.g.And(st.g, en.g)
		if g == False {
			continue
		}
		t := &target{g: g}
		if c.IsInvoke() {
			i := en.l.p.(*Iface)
			t.fn = e.P.lookupMethod(i.t, c.Method)
			t.recv = i.v
		} else {
			cl := en.l.p.(*Closure)
			t.fn, t.binds = cl.fn, cl.binds
		}
		merged := false
		for _, o := range ts {
			if o.fn == t.fn {
				for k := range o.binds {
					o.binds[k] = e.ite(t.g, t.binds[k], o.binds[k])
				}
				if o.recv != nil {
					o.recv = e.ite(t.g, t.recv, o.recv)
				}
				o.g = e.g.Or(o.g, t.g)
				merged = true
				break
			}
		}
		if !merged {
			t.binds = append([]Val(nil), t.binds...)
			ts = append(ts, t)
		}
	}
	full := func(t *target) []Val {
		if t.recv != nil {
			return append([]Val{t.recv}, args...)
		}
		return args
	}
	if len(ts) == 1 {
		return e.enter(st, ts[0].fn, full(ts[0]), ts[0].binds, call, isDefer, site)
	}
	for _, t := range ts {
		s := st.fork(t.g)
		if !e.enter(s, t.fn, full(t), t.binds, call, isDefer, site) {
			e.q.add(s)
		}
	}
	return true
}

// enter starts fn in st; false: st continues (in the callee or after an intrinsic).
func (e *Eng) enter(st *State, fn *ssa.Function, args, binds []Val, call ssa.CallInstruction, isDefer bool, site ssa.Instruction) bool {
	if r := e.P.standIn(fn); r != nil {
		e.stubs[intrName(fn)]++
		fn = r
	}
	if in := e.P.intrinsic(fn); in != nil {
		if !e.P.isHarness(fn) {
			e.stubs[intrName(fn)]++
		}
		c := &icall{e: e, st: st, fn: fn, args: args, site: site}
		res, ok := in(c)
		if !ok || st.g == False {
			return true
		}
		f := st.own()
		if isDefer {
			e.q.add(st)
			return true
		}
		e.setCallResult(f, call, res)
		f.idx++
		return false
	}
	e.P.ensureBuilt(fn)
	e.pushFrame(st, fn, args, binds, call, isDefer)
	if isDefer {
		e.q.add(st)
		return true
	}
	return false
}

type icall struct {
	e    *Eng
	st   *State
	fn   *ssa.Function
	args []Val
	site ssa.Instruction
}

type intrinsicFn func(c *icall) ([]Val, bool)

func intrName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (c *icall) str(i int) string {
	s, ok := c.args[i].(*Sum)
	if !ok || len(s.e) != 1 {
		unsup("symbolic label in %v", c.fn)
	}
	return s.e[0].l.p.(string)
}

func (c *icall) int(i int) int64 {
	s, ok := c.args[i].(*Sum)
	if !ok || len(s.e) != 1 {
		unsup("symbolic constant argument %d of %v", i, c.fn)
	}
	return s.e[0].l.a
}

func (c *icall) res(i int) types.Type { return c.fn.Signature.Results().At(i).Type() }

// atomicOp implements the functions of sync/atomic.
func atomicOp(name string) intrinsicFn {
	op, write := "", true
	for _, o := range []string{"CompareAndSwap", "Load", "Store", "Swap", "Add", "And", "Or"} {
		if strings.HasPrefix(name, o) {
			op = o
			break
		}
	}
	if op == "" {
		return nil
	}
	if op == "Load" {
		write = false
	}
	return func(c *icall) ([]Val, bool) {
		e, st := c.e, c.st
		p, ok := e.nonNil(st, c.args[0], c.site, "atomic "+op)
		if !ok {
			return nil, false
		}
		t := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		e.visible(st, c.site, &access{addr: p, n: 1, write: write, atomic: true, pos: e.pos(c.site)}, e.shared(p))
		if st.g == False {
			return nil, false
		}
		e.raceCheck(st, p, 1, write, true, c.site)
		if st.cost != nil {
			t := types.Typ[types.Int]
			st.cost = e.binop(tokAdd, t, t, st.cost, intSum(1), nil)
		}
		old := e.load(st.g, p, t)
		switch op {
		case "Load":
			return []Val{old}, true
		case "Store":
			e.store(st.g, p, t, c.args[1])
			return nil, true
		case "Swap":
			e.store(st.g, p, t, c.args[1])
			return []Val{old}, true
		case "Add":
			n := e.binop(tokAdd, t, t, old, c.args[1], nil)
			e.store(st.g, p, t, n)
			return []Val{n}, true
		case "And", "Or":
			o := tokAnd
			if op == "Or" {
				o = tokOr
			}
			e.store(st.g, p, t, e.binop(o, t, t, old, c.args[1], nil))
			return []Val{old}, true
		}
		eq := e.valEq(t, old, c.args[1])
		w := e.g.And(st.g, eq)
		if w != False {
			e.store(w, p, t, c.args[2])
		}
		return []Val{eq}, true
	}
}

func (e *Eng) lockedBy(p *Sum, wantReaders bool) Lit {
	r := False
	for _, en := range p.e {
		s := e.cells[e.cellOf(en.l)].(*Sum)
		for _, m := range s.e {
			if m.l.a != 0 || (wantReaders && m.l.b != 0) {
				r = e.g.Or(r, e.g.And(en.g, m.g))
			}
		}
	}
	return r
}

func (e *Eng) setMutex(g Lit, p *Sum, fn func(Leaf) Leaf) {
	for _, en := range p.e {
		at := e.cellOf(en.l)
		s := e.cells[at].(*Sum)
		var m []Ent
		for _, x := range s.e {
			m = append(m, Ent{x.g, fn(x.l)})
		}
		pg := g
		if len(p.e) > 1 {
			pg = e.g.And(g, en.g)
		}
		e.cells[at] = e.ite(pg, e.sumFrom(m), s)
	}
}

func mutexOp(op string) intrinsicFn {
	return func(c *icall) ([]Val, bool) {
		e, st := c.e, c.st
		p, ok := e.nonNil(st, c.args[0], c.site, "mutex "+op)
		if !ok {
			return nil, false
		}
		rd := op == "RLock" || op == "TryRLock" || op == "RUnlock"
		upd := func(l Leaf) Leaf { l.a = 1; return l }
		if rd {
			upd = func(l Leaf) Leaf { l.b++; return l }
		}
		switch op {
		case "Lock", "RLock":
			e.visibleLock(st, c.site, p, !rd)
			if st.g == False {
				return nil, false
			}
			held := e.lockedBy(p, !rd)
			hg := e.g.And(st.g, held)
			if hg != False && e.feasible(hg) {
				if e.cur.id < 0 {
					e.fails = append(e.fails, Fail{hg, "deadlock: lock never released at " + e.stackPos(st, c.site)})
				} else {
					s := st.fork(hg)
					s.block = &blocked{p, rd}
					s.fresh = true
					e.cur.parked = append(e.cur.parked, s)
				}
			}
			st.g = e.g.And(st.g, held.Not())
			if st.g == False || !e.feasible(st.g) {
				st.g = False
				return nil, false
			}
			e.visEvent(st, c.site)
			e.setMutex(st.g, p, upd)
			return nil, true
		case "TryLock", "TryRLock":
			e.visible(st, c.site, nil, e.shared(p))
			if st.g == False {
				return nil, false
			}
			held := e.lockedBy(p, !rd)
			e.setMutex(e.g.And(st.g, held.Not()), p, upd)
			return []Val{held.Not()}, true
		}
		// Unlock
		bad := False
		for _, en := range p.e {
			s := e.cells[e.cellOf(en.l)].(*Sum)
			for _, m := range s.e {
				if (!rd && m.l.a == 0) || (rd && m.l.b == 0) {
					bad = e.g.Or(bad, e.g.And(en.g, m.g))
				}
			}
		}
		bg := e.g.And(st.g, bad)
		if bg != False && e.feasible(bg) {
			e.crashes = append(e.crashes, Crash{bg, "unlock of unlocked mutex at " + e.stackPos(st, c.site), e.cur.id})
			st.g = e.g.And(st.g, bad.Not())
			if !e.feasible(st.g) {
				st.g = False
				return nil, false
			}
		}
		e.setMutex(st.g, p, func(l Leaf) Leaf {
			if rd {
				if l.b > 0 {
					l.b--
				}
			} else {
				l.a = 0
			}
			return l
		})
		return nil, true
	}
}

// draw models one call of the random source.
func (c *icall) draw() ([]Val, bool) {
	e, st := c.e, c.st
	if c.fn.Signature.Results().Len() != 1 {
		unsup("random source %v", c.fn)
	}
	t := c.res(0)
	lvl := st.draws
	free := e.levels == 0
	var zeroG Lit
	if free {
		zeroG = e.g.Input(fmt.Sprintf("draw%d", len(e.events)))
	} else {
		// draws of this operation so far: lvl; the tower would have height lvl+1
		has, above := e.levels>>lvl&1 == 1, e.levels>>(lvl+1) != 0
		switch {
		case !above:
			zeroG = False
		case !has:
			zeroG = True
		default:
			zeroG = e.g.Input(fmt.Sprintf("draw%d", len(e.events)))
		}
	}
	var v Val
	switch {
	case len(c.args) > 0 && classOf(t) == cInt:
		n, ok := c.args[0].(*Sum)
		if !ok || len(n.e) != 1 {
			unsup("random bound is symbolic")
		}
		k := n.e[0].l.a
		if k < 1 {
			unsup("random bound %d", k)
		}
		if e.wideDraws {
			w, _ := bitsOf(t)
			b := e.freshBV("draw", w)
			lt := e.bvUlt(b.b, e.toBV(intSum(k), w).b)
			e.assume(st.g, lt)
			v = b
		} else {
			w, sg := bitsOf(t)
			v = e.ite(zeroG, zeroInt, intSum(norm(k-1, w, sg)))
		}
	case classOf(t) == cInt:
		w, sg := bitsOf(t)
		if e.wideDraws {
			v = e.freshBV("draw", w)
			break
		}
		// words with k leading and k trailing zeros
		ks := []int{0, 2, 4, 8, 1}
		if !free {
			// one word per height, for the usual chance of a quarter per level
			ks = nil
			for i := 0; i < 32; i++ {
				if e.levels>>i&1 == 1 {
					k := 2 * i
					if k > w-2 {
						k = w - 2
					}
					ks = append(ks, k)
				}
			}
		}
		var m []Ent
		rest := True
		for i, k := range ks {
			x := (^uint64(0)>>(64-w)>>k)&^(1<<k-1) | 1<<k
			g := rest
			if i < len(ks)-1 {
				b := e.g.Input(fmt.Sprintf("draw%d_%d", len(e.events), i))
				g, rest = e.g.And(rest, b), e.g.And(rest, b.Not())
			}
			m = append(m, Ent{g, intLeaf(norm(int64(x), w, sg))})
		}
		v = e.sumFrom(m)
	case classOf(t) == cFloat:
		w, _ := bitsOf(t)
		v = e.ite(zeroG, zeroInt, intSum(fbits(0.9375, w)))
	default:
		unsup("random source %v", c.fn)
	}
	e.events = append(e.events, Event{g: st.g, thread: e.cur.id, round: e.round, kind: "draw", val: v, info: t.String()})
	st.draws = lvl + 1
	if st.draws > 30 {
		st.draws = 30
	}
	return []Val{v}, true
}

func (e *Eng) freshBV(name string, w int) *BV {
	b := make([]Lit, w)
	for i := range b {
		b[i] = e.g.Input(fmt.Sprintf("%s[%d]", name, i))
	}
	return &BV{b}
}

// nondet makes an arbitrary value of type t.
func (e *Eng) nondet(label string, t types.Type, g Lit, strMax int) Val {
	var v Val
	switch classOf(t) {
	case cBool:
		v = e.g.Input(label)
	case cInt, cFloat:
		w, _ := bitsOf(t)
		v = e.freshBV(label, w)
	case cString:
		s := &SymStr{n: make([]Lit, lenBits)}
		for i := 0; i < lenBits; i++ {
			s.n[i] = e.g.Input(fmt.Sprintf("%s.len[%d]", label, i))
		}
		ok := e.bvUlt(s.n, e.toBV(intSum(int64(strMax+1)), lenBits).b)
		e.assume(True, ok)
		for i := range s.by {
			s.by[i] = make([]Lit, 8)
			if i >= strMax {
				continue
			}
			in := e.bvUlt(e.toBV(intSum(int64(i)), lenBits).b, s.n)
			for b := range s.by[i] {
				s.by[i][b] = e.g.And(in, e.g.Input(fmt.Sprintf("%s.b%d[%d]", label, i, b)))
			}
		}
		v = s
	default:
		unsup("nondet of %v", t)
	}
	e.nondets = append(e.nondets, NonDet{label, t, v, g})
	return v
}

// choice makes an arbitrary integer in [lo,hi].
func (e *Eng) choice(label string, lo, hi int64, g Lit) Val {
	var vs []int64
	for i := lo; i <= hi && len(vs) <= 64; i++ {
		vs = append(vs, i)
	}
	return e.oneOf(label, vs, g)
}

// pick makes an arbitrary bit position of mask.
func (e *Eng) pick(label string, mask int64, g Lit) Val {
	var vs []int64
	for i := int64(0); i < 63; i++ {
		if mask>>i&1 == 1 {
			vs = append(vs, i)
		}
	}
	return e.oneOf(label, vs, g)
}

func (e *Eng) oneOf(label string, vs []int64, g Lit) Val {
	n := int64(len(vs))
	if n <= 0 || n > 64 {
		unsup("choice %s of %d values", label, n)
	}
	w := bits.Len64(uint64(n - 1))
	bs := make([]Lit, w)
	for i := range bs {
		bs[i] = e.g.Input(fmt.Sprintf("%s[%d]", label, i))
	}
	var m []Ent
	rest := True
	for i := int64(0); i < n; i++ {
		gi := rest
		if i < n-1 {
			gi = True
			for b := range bs {
				if i>>b&1 == 1 {
					gi = e.g.And(gi, bs[b])
				} else {
					gi = e.g.And(gi, bs[b].Not())
				}
			}
			rest = e.g.And(rest, gi.Not())
		}
		m = append(m, Ent{gi, intLeaf(vs[i])})
	}
	v := e.sumFrom(m)
	e.nondets = append(e.nondets, NonDet{label, types.Typ[types.Int], v, g})
	return v
}

func (e *Eng) builtin(st *State, f *Frame, name string, c *ssa.CallCommon, args []Val, in ssa.Instruction) (Val, bool) {
	switch name {
	case "len", "cap":
		t := c.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return intSum(a.Len()), true
		}
		switch x := args[0].(type) {
		case *SymStr:
			b := append([]Lit{}, x.n...)
			for len(b) < 64 {
				b = append(b, False)
			}
			return &BV{b}, true
		case *Sum:
			var m []Ent
			for _, en := range x.e {
				n := int64(0)
				switch en.l.k {
				case KStr:
					n = int64(len(en.l.p.(string)))
				case KSlice:
					n = en.l.c
					if name == "cap" {
						n = en.l.d
					}
				case KNil:
				default:
					unsup("len of %v", en.l)
				}
				m = append(m, Ent{en.g, intLeaf(n)})
			}
			return e.sumFrom(m), true
		}
	case "append":
		return e.bAppend(st, f, c, args, in)
	case "copy":
		return e.bCopy(st, f, c, args, in)
	case "panic":
		e.raise(st, st.g, "panic "+e.show(args[0]), args[0], in)
		return nil, false
	case "min", "max":
		acc := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := tokLss
			if name == "max" {
				op = tokGtr
			}
			acc = e.ite(e.binop(op, t, t, a, acc, nil).(Lit), a, acc)
		}
		return acc, true
	case "print", "println":
		return &Agg{}, true
	case "ssa:wrapnilchk":
		p, ok := e.nonNil(st, args[0], in, "method value")
		if !ok {
			return nil, false
		}
		return p, true
	case "recover":
		if len(st.fr) >= 2 && f.isDefer {
			p := st.fr[len(st.fr)-2]
			if p.panicking && !p.recovered && !isGoexit(p.pval) {
				if p.shared {
					p = p.clone()
					st.fr[len(st.fr)-2] = p
				}
				p.recovered = true
				return p.pval, true
			}
		}
		return nilSum, true
	}
	unsup("builtin %s", name)
	return nil, false
}

var goexitVal = constSum(Leaf{k: KNil, a: 777})

func isGoexit(v Val) bool { return v == Val(goexitVal) }
