package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// par runs the goroutine bodies given as the variadic argument in the segments of a schedule string.
// A digit d is a segment of goroutine d that may be preempted before any visible operation;
// a letter ('a' is goroutine 0) is a segment that runs until it ends or waits for a lock.
// With stall, only the last goroutine has to end, and it must end although the others stay where they are.
func (e *Eng) par(c *icall, stall bool) bool {
	st := c.st
	if e.cur.id >= 0 || e.q.Len() != 0 {
		unsup("vPar with other paths pending")
	}
	sched := c.str(0)
	sl, ok := c.args[1].(*Sum)
	if !ok || len(sl.e) != 1 || sl.e[0].l.k != KSlice {
		unsup("vPar arguments")
	}
	l := sl.e[0].l
	savedQ, savedCur := e.q, e.cur
	e.threads = nil
	for i := int64(0); i < l.c; i++ {
		v := e.restrict(e.cells[e.objs[l.a].base+int(l.b+i)], st.g).(*Sum)
		if len(v.e) != 1 {
			unsup("vPar goroutine is symbolic")
		}
		cl := v.e[0].l.p.(*Closure)
		t := &Thread{id: int(i), done: False}
		e.threads = append(e.threads, t)
		s := &State{g: st.g}
		e.P.ensureBuilt(cl.fn)
		e.pushFrame(s, cl.fn, nil, cl.binds, nil, false)
		t.parked = []*State{s}
	}
	// everything reachable so far is shared
	for id := range e.objs {
		e.escNow = True
		e.escape(id)
	}
	last := len(e.threads) - 1
	for r, ch := range sched {
		tid := int(ch - '0')
		stop := true
		if ch >= 'a' {
			tid, stop = int(ch-'a'), false
		}
		t := e.threads[tid]
		e.cur, e.round, e.canStop, e.lastSeg = t, r, stop, !stop
		e.stalled = stall && tid == last
		e.q = &queue{byK: map[string]*State{}, e: e}
		ps := t.parked
		t.parked = nil
		for _, s := range ps {
			if !e.feasible(s.g) {
				continue
			}
			s.pend, s.block = nil, nil
			for i, f := range s.fr {
				if f.shared {
					f = f.clone()
					s.fr[i] = f
				}
				for k := range f.seg {
					f.seg[k] = 0
				}
			}
			e.q.add(s)
		}
		e.runQueue()
		t.mergeParked(e)
	}
	e.stalled = false
	e.canStop, e.lastSeg = false, false
	e.q, e.cur = savedQ, savedCur
	if stall {
		t := e.threads[last]
		bad := False
		for _, s := range t.parked {
			if s.block != nil {
				bad = e.g.Or(bad, e.g.And(s.g, e.lockedBy(s.block.addr, !s.block.rd)))
			}
		}
		if bad != False {
			e.fails = append(e.fails, Fail{bad, "blocked: a call waits for a lock held by a suspended goroutine"})
		}
		st.g = e.g.And(st.g, t.done)
	} else {
		dead, all := st.g, True
		for _, t := range e.threads {
			b := t.done
			for _, s := range t.parked {
				if s.block != nil {
					b = e.g.Or(b, e.g.And(s.g, e.lockedBy(s.block.addr, !s.block.rd)))
				}
			}
			dead = e.g.And(dead, b)
			all = e.g.And(all, t.done)
		}
		if dl := e.g.And(dead, all.Not()); dl != False {
			e.fails = append(e.fails, Fail{dl, "deadlock: goroutines wait for locks for ever"})
		}
		st.g = e.g.And(st.g, all)
	}
	e.threads = nil
	if !e.feasible(st.g) {
		st.g = False
		return false
	}
	e.reach = append(e.reach, Fail{st.g, "par:" + sched})
	return true
}

// mergeParked drops infeasible parked states and joins those at one place with one pending access.
func (t *Thread) mergeParked(e *Eng) {
	byK := map[string]*State{}
	var out []*State
	for _, s := range t.parked {
		k := s.mkKey()
		if s.block != nil {
			k += "B"
		}
		if o, ok := byK[k]; ok {
			c := o.g
			if s.pend != nil && o.pend != nil {
				p := *o.pend
				p.addr = e.ite(c, o.pend.addr, s.pend.addr).(*Sum)
				o.pend = &p
			}
			if s.block != nil && o.block != nil {
				b := *o.block
				b.addr = e.ite(c, o.block.addr, s.block.addr).(*Sum)
				o.block = &b
			}
			e.merge(o, s)
			continue
		}
		byK[k] = s
		out = append(out, s)
	}
	t.parked = out
}

// reachable gives the condition under which an object can be reached from a value.
func (e *Eng) reachable(root Val, objs []int) Lit {
	at := map[int]Lit{}
	var work []int
	add := func(id int, g Lit) {
		if g == False {
			return
		}
		old := at[id]
		n := e.g.Or(old, g)
		if n != old && (old == False || e.feasible(e.g.And(g, old.Not()))) {
			at[id] = n
			work = append(work, id)
		}
	}
	var visit func(v Val, g Lit)
	visit = func(v Val, g Lit) {
		switch x := v.(type) {
		case *Sum:
			for _, en := range x.e {
				gg := e.g.And(g, en.g)
				if gg == False {
					continue
				}
				switch en.l.k {
				case KPtr, KSlice:
					add(int(en.l.a), gg)
				case KFunc:
					for _, b := range en.l.p.(*Closure).binds {
						visit(b, gg)
					}
				case KIface:
					visit(en.l.p.(*Iface).v, gg)
				}
			}
		case *Agg:
			for _, y := range x.e {
				visit(y, g)
			}
		}
	}
	visit(root, True)
	steps := 0
	for len(work) > 0 {
		sort.Ints(work)
		id := work[0]
		for len(work) > 0 && work[0] == id {
			work = work[1:]
		}
		if steps++; steps > 4000 {
			unsup("reachability does not converge")
		}
		g := at[id]
		if !e.feasible(g) {
			continue
		}
		o := e.objs[id]
		for i := o.base; i < o.base+o.n; i++ {
			if e.cells[i] != nil {
				visit(e.cells[i], g)
			}
		}
	}
	any := False
	for _, o := range objs {
		any = e.g.Or(any, at[o])
	}
	return any
}

// run executes a harness function from the initial state.
func (e *Eng) run(fn *ssa.Function) {
	e.q = &queue{byK: map[string]*State{}, e: e}
	e.cur = &Thread{id: -1, done: False}
	if in := e.P.initFn; in != nil {
		st := &State{g: True}
		e.pushFrame(st, in, nil, nil, nil, false)
		e.q.add(st)
		e.runQueue()
		e.cur.done = False
	}
	st := &State{g: True}
	e.pushFrame(st, fn, nil, nil, nil, false)
	e.q.add(st)
	e.runQueue()
	e.reach = append(e.reach, Fail{e.cur.done, "end"})
}

func isSolo(f Fail) bool { return strings.HasPrefix(f.label, "solo:") }
