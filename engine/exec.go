package main

import (
	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obj struct {
	id      int
	base, n int
	typ     types.Type
	heap    bool // may be shared between goroutines
	escaped bool
	escG    Lit // when the object was made known to others, for objects of goroutines
	site    string
	thread  int
	g       Lit // condition under which the object was created
}

type Deferred struct {
	g    Lit
	call *ssa.CallCommon
	fn   Val
	args []Val
	site ssa.Instruction
}

type Frame struct {
	fi        *FuncInfo
	regs      []Val
	blk, idx  int
	iters     []int32
	seg       []int32
	defers    []*Deferred
	ran       int32
	call      ssa.CallInstruction
	isDefer   bool
	panicking bool
	recovered bool
	pval      Val
	shared    bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Val(nil), f.regs...)
	n.iters = append([]int32(nil), f.iters...)
	n.seg = append([]int32(nil), f.seg...)
	n.defers = append([]*Deferred(nil), f.defers...)
	n.shared = false
	return &n
}

type State struct {
	g     Lit
	fr    []*Frame
	fresh bool // resumed at a visible operation: must make progress
	key   string
	pend  *access // pending access of a parked state
	block *blocked
	draws int
	cost  Val // atomic operations since the last vCost, while that is asked for
}

type access struct {
	addr   *Sum
	n      int
	write  bool
	atomic bool
	pos    string
}

type blocked struct {
	addr *Sum
	rd   bool
}

func (s *State) top() *Frame { return s.fr[len(s.fr)-1] }

// own makes the top frame writable.
func (s *State) own() *Frame {
	f := s.fr[len(s.fr)-1]
	if f.shared {
		f = f.clone()
		s.fr[len(s.fr)-1] = f
	}
	return f
}

func (s *State) fork(g Lit) *State {
	for _, f := range s.fr {
		f.shared = true
	}
	return &State{g: g, fr: append([]*Frame(nil), s.fr...), draws: s.draws, cost: s.cost}
}

func put32(b []byte, v int32) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func (s *State) mkKey() string {
	var b []byte
	for _, f := range s.fr {
		b = put32(b, f.fi.id)
		for _, st := range f.fi.path[f.blk] {
			b = put32(b, int32(st.ord))
			if st.loop >= 0 {
				b = put32(b, f.iters[st.loop])
			}
		}
		p := int32(0)
		if f.panicking {
			p = 1
		}
		if f.recovered {
			p |= 2
		}
		b = put32(b, int32(f.idx)*256+p*64+f.ran)
	}
	return string(b)
}

type queue struct {
	h   []*State
	byK map[string]*State
	e   *Eng
}

func (q *queue) Len() int           { return len(q.h) }
func (q *queue) Less(i, j int) bool { return q.h[i].key < q.h[j].key }
func (q *queue) Swap(i, j int)      { q.h[i], q.h[j] = q.h[j], q.h[i] }
func (q *queue) Push(x interface{}) { q.h = append(q.h, x.(*State)) }
func (q *queue) Pop() interface{} {
	x := q.h[len(q.h)-1]
	q.h = q.h[:len(q.h)-1]
	return x
}

func (q *queue) add(s *State) {
	if s.g == False {
		return
	}
	s.key = s.mkKey()
	if o, ok := q.byK[s.key]; ok {
		q.e.merge(o, s)
		return
	}
	q.byK[s.key] = s
	heap.Push(q, s)
}

func (q *queue) pop() *State {
	s := heap.Pop(q).(*State)
	delete(q.byK, s.key)
	return s
}

// merge folds state b into a (same key, exclusive guards).
func (e *Eng) merge(a, b *State) {
	e.nMerge++
	c := a.g
	for i := range a.fr {
		fa, fb := a.fr[i], b.fr[i]
		if fa == fb {
			continue
		}
		if fa.shared {
			fa = fa.clone()
			a.fr[i] = fa
		}
		live := fa.fi.liveAt(fa.blk, fa.idx)
		for r := range fa.regs {
			if live != nil && !live[r] {
				fa.regs[r] = nil
				continue
			}
			x, y := fa.regs[r], fb.regs[r]
			if x == nil {
				fa.regs[r] = y
			} else if y != nil {
				fa.regs[r] = e.ite(c, x, y)
			}
		}
		for l := range fa.seg {
			if fb.seg[l] < fa.seg[l] {
				fa.seg[l] = fb.seg[l]
			}
		}
		if len(fa.defers)+len(fb.defers) > 0 {
			n := 0
			for n < len(fa.defers) && n < len(fb.defers) && fa.defers[n] == fb.defers[n] {
				n++
			}
			var rest []*Deferred
			for _, d := range fa.defers[n:] {
				x := *d
				x.g = e.g.And(d.g, a.g)
				rest = append(rest, &x)
			}
			for _, d := range fb.defers[n:] {
				x := *d
				x.g = e.g.And(d.g, b.g)
				rest = append(rest, &x)
			}
			fa.defers = append(append([]*Deferred(nil), fa.defers[:n]...), rest...)
		}
		if fa.panicking {
			fa.pval = e.ite(c, fa.pval, fb.pval)
		}
		if fa.recovered != fb.recovered {
			unsup("merge of recovered and unrecovered frames")
		}
	}
	a.fresh = a.fresh && b.fresh
	if b.draws > a.draws {
		a.draws = b.draws
	}
	if a.cost != nil && b.cost != nil {
		a.cost = e.ite(c, a.cost, b.cost)
	}
	a.g = e.g.Or(a.g, b.g)
}

// ---- engine ----

type Crash struct {
	g      Lit
	msg    string
	thread int
}

type Fail struct {
	g     Lit
	label string
}

type Event struct {
	g      Lit
	thread int
	round  int
	kind   string // "vis", "draw", "call"
	val    Val
	val2   Val
	info   string
}

type NonDet struct {
	label string
	t     types.Type
	v     Val
	g     Lit
}

type Eng struct {
	P       *Prog
	g       *AIG
	sat     *Sat
	constr  Lit
	objs    []*Obj
	cells   []Val
	sizes   map[types.Type]int
	globals map[*ssa.Global]int
	prune   bool
	q       *queue

	cur      *Thread
	round    int
	canStop  bool
	lastSeg  bool
	threads  []*Thread
	onReturn func(g Lit, res []Val)
	raceMode bool

	fails   []Fail
	crashes []Crash
	cuts    []Fail
	events  []Event
	nondets []NonDet
	races   map[string]Lit
	reach   []Fail // reachability witnesses

	feas     map[Lit]bool
	funcsRun map[*ssa.Function]int
	stubs    map[string]int
	instrs   int64
	nMerge   int64
	paths    int64
	deadline time.Time

	levels     uint32 // allowed tower heights (bit h-1); 0: all
	retrySeq   int32
	retrySeg   int32
	zeroBase   *Obj // what all zero-size heap variables share
	retryLast  int32
	progMax    int32
	nvis       int
	drawLog    bool
	trace      bool
	maxNodes   int
	switches   int
	plainStops int
	escNow     Lit
	visOps     int64
	trace2     func(r int, d time.Duration)
	nAssert    int
	params     map[string]string
	strMax     int
	wideDraws  bool
	dbgUnsat   []Lit
	stalled    bool // the running goroutine must finish alone
	tokens     map[int64][]int
}

type Thread struct {
	id      int
	parked  []*State
	done    Lit
	started bool
}

func NewEng(p *Prog) *Eng {
	g := NewAIG(1)
	e := &Eng{P: p, g: g, sat: NewSat(g), constr: True, sizes: map[types.Type]int{}, globals: map[*ssa.Global]int{},
		prune: true, feas: map[Lit]bool{}, funcsRun: map[*ssa.Function]int{}, stubs: map[string]int{}, races: map[string]Lit{}, tokens: map[int64][]int{},
		retrySeq: 5, retrySeg: 3, retryLast: 5, progMax: 24, maxNodes: 6000000}
	e.cur = &Thread{id: -1}
	e.newObj(1, nil, false, "nilobj")
	return e
}

func (e *Eng) newObj(n int, t types.Type, hp bool, site string) *Obj {
	o := &Obj{g: True, escG: False, id: len(e.objs), base: len(e.cells), n: n, typ: t, heap: hp, site: site}
	o.thread = -1
	if e.cur != nil {
		o.thread = e.cur.id
	}
	if o.thread < 0 {
		o.escaped = true
	}
	e.objs = append(e.objs, o)
	for i := 0; i < n; i++ {
		e.cells = append(e.cells, nil)
	}
	return o
}

func (e *Eng) alloc(t types.Type, hp bool, site string) *Obj {
	o := e.newObj(e.sizeOf(t), t, hp, site)
	e.initCells(o.base, t)
	return o
}

func (e *Eng) initCells(at int, t types.Type) int {
	if classOf(t) == cAgg {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				at = e.initCells(at, u.Field(i).Type())
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				at = e.initCells(at, u.Elem())
			}
		}
		return at
	}
	e.cells[at] = e.zero(t)
	return at + 1
}

func (e *Eng) assume(g, c Lit) {
	x := e.g.Or(g.Not(), c)
	if x == True {
		return
	}
	e.constr = e.g.And(e.constr, x)
	e.sat.Assert(x)
}

// feasible reports whether g can hold; unknown counts as feasible.
func (e *Eng) feasible(g Lit) bool {
	if g == False {
		return false
	}
	if e.g.SimOf(g)&e.g.SimOf(e.constr) != 0 {
		e.sat.SimHits++
		return true
	}
	if f, ok := e.feas[g]; ok {
		return f
	}
	if time.Now().After(e.deadline) {
		panic(timeoutErr{})
	}
	if len(e.g.nodes) > e.maxNodes {
		unsup("formula larger than %d nodes", e.maxNodes)
	}
	t0 := time.Now()
	r := e.sat.Solve(1500, g)
	if e.trace2 != nil {
		e.trace2(r, time.Since(t0))
	}
	if r == 1 {
		e.sat.Learn()
	}
	if r == 0 {
		e.sat.Lemma(g.Not()) // implied by the constraints: a lemma for later queries
	}
	if r == 0 && dbgFeas {
		e.dbgUnsat = append(e.dbgUnsat, g)
	}
	e.feas[g] = r != 0
	return r != 0
}

type timeoutErr struct{}

var dbgFeas = os.Getenv("VDBGFEAS") != ""

func (e *Eng) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := e.P.fset.Position(in.Pos())
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	n := ""
	if in.Parent() != nil {
		n = in.Parent().Name()
	}
	return fmt.Sprintf("%s:%d(%s)", f, p.Line, n)
}

func (e *Eng) stackPos(st *State, in ssa.Instruction) string {
	s := e.pos(in)
	for i := len(st.fr) - 2; i >= 0; i-- {
		f := st.fr[i]
		if f.idx < len(f.fi.fn.Blocks[f.blk].Instrs) {
			s += " < " + e.pos(f.fi.fn.Blocks[f.blk].Instrs[f.idx])
		}
	}
	return s
}

// raise starts a panic in st under guard g.
func (e *Eng) raise(st *State, g Lit, msg string, val Val, in ssa.Instruction) {
	if g == False || !e.feasible(g) {
		return
	}
	hasDefer := false
	for _, f := range st.fr {
		if len(f.defers) > 0 {
			hasDefer = true
		}
	}
	if !hasDefer {
		e.crashes = append(e.crashes, Crash{g, msg + " at " + e.stackPos(st, in), e.cur.id})
		return
	}
	if val == nil {
		val = constSum(Leaf{k: KIface, p: &Iface{types.Typ[types.String], strSum(msg)}})
	}
	s2 := st.fork(g)
	f := s2.own()
	f.panicking, f.recovered = true, false
	f.pval = val
	f.ran = 0
	e.q.add(s2)
}

// unwind advances a panicking state by one deferred call or one frame.
func (e *Eng) unwind(st *State) {
	for {
		f := st.own()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.ran++
			if d.g != True {
				skip := st.fork(e.g.And(st.g, d.g.Not()))
				e.q.add(skip)
				st.g = e.g.And(st.g, d.g)
				if st.g == False {
					return
				}
			}
			e.callDeferred(st, d)
			return
		}
		if f.recovered {
			f.panicking, f.recovered = false, false
			f.ran = 0
			if rb := f.fi.fn.Recover; rb != nil {
				f.blk, f.idx = rb.Index, 0
				e.q.add(st)
				return
			}
			var res []Val
			r := f.fi.fn.Signature.Results()
			for i := 0; i < r.Len(); i++ {
				res = append(res, e.zero(r.At(i).Type()))
			}
			e.doReturn(st, res)
			return
		}
		pv := f.pval
		if len(st.fr) == 1 && isGoexit(pv) {
			e.cur.done = e.g.Or(e.cur.done, st.g)
			return
		}
		if len(st.fr) == 1 {
			e.crashes = append(e.crashes, Crash{st.g, "panic " + e.show(pv), e.cur.id})
			return
		}
		if f.isDefer {
			// a panic inside a deferred call replaces the one in progress
			st.fr = st.fr[:len(st.fr)-1]
			p := st.own()
			p.panicking, p.recovered, p.pval = true, false, pv
			continue
		}
		st.fr = st.fr[:len(st.fr)-1]
		p := st.own()
		p.panicking, p.pval, p.ran = true, pv, 0
	}
}

func (e *Eng) callDeferred(st *State, d *Deferred) {
	e.doCall(st, nil, d.call, d.fn, d.args, true, d.site)
}

func (e *Eng) runQueue() {
	for e.q.Len() > 0 {
		if time.Now().After(e.deadline) {
			panic(timeoutErr{})
		}
		st := e.q.pop()
		e.paths++
		e.step(st)
	}
}

func (e *Eng) pushFrame(st *State, fn *ssa.Function, args []Val, binds []Val, call ssa.CallInstruction, isDefer bool) {
	if len(fn.Blocks) == 0 {
		unsup("call of %v, which has no body", fn)
	}
	if len(st.fr) > 60 {
		unsup("call depth over 60 at %v", fn)
	}
	fi := funcInfo(fn)
	e.funcsRun[fn]++
	f := &Frame{fi: fi, regs: make([]Val, fi.nregs), iters: make([]int32, len(fi.loops)), seg: make([]int32, len(fi.loops)), call: call, isDefer: isDefer}
	for i, p := range fn.Params {
		f.regs[fi.regs[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.regs[p]] = binds[i]
	}
	st.fr = append(st.fr, f)
}

func (e *Eng) eval(f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return constSum(Leaf{k: KFunc, p: e.P.closureOf(x)})
	case *ssa.Global:
		return constSum(ptrLeaf(e.global(x), 0))
	case *ssa.Builtin:
		return nil
	}
	r, ok := f.fi.regs[v]
	if !ok {
		unsup("value %v", v)
	}
	if f.regs[r] == nil {
		unsup("undefined register %v in %v", v.Name(), f.fi.fn)
	}
	return f.regs[r]
}

func (e *Eng) global(x *ssa.Global) int {
	if id, ok := e.globals[x]; ok {
		return id
	}
	var first ssa.Value
	if x.Pkg != e.P.pkg && x.Pkg != nil {
		if first = e.P.foreignInit(x); first == nil {
			unsup("global variable %v of another package", x)
		}
	}
	sv := e.cur
	e.cur = &Thread{id: -1}
	t := x.Type().Underlying().(*types.Pointer).Elem()
	o := e.alloc(t, true, x.String())
	e.globals[x] = o.id
	if first != nil {
		e.store(True, constSum(ptrLeaf(o.id, 0)), t, e.eval(nil, first))
	}
	e.cur = sv
	return o.id
}

// foreignInit gives the initial value of a variable of another package, if it is a constant or a function.
func (p *Prog) foreignInit(x *ssa.Global) ssa.Value {
	in := x.Pkg.Func("init")
	if in == nil {
		return nil
	}
	p.ensureBuilt(in)
	var v ssa.Value
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == x {
				switch s.Val.(type) {
				case *ssa.Function, *ssa.Const:
				default:
					return nil
				}
				if v != nil {
					return nil
				}
				v = s.Val
			}
		}
	}
	return v
}

func (e *Eng) edge(st *State, to *ssa.BasicBlock, g Lit) *State {
	// st is consumed
	f := st.own()
	from := f.fi.fn.Blocks[f.blk]
	// phis
	var pi int
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.eval(f, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[f.fi.regs[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	// loop counters
	for _, l := range f.fi.loops {
		if l.header == to.Index {
			if l.members[from.Index] {
				f.iters[l.id]++
				f.seg[l.id]++
				lim := e.progMax
				if !e.P.progressLoop(f.fi, l) {
					switch {
					case e.cur.id < 0:
						lim = e.retrySeq
					case e.lastSeg:
						lim = e.retryLast
					default:
						lim = e.retrySeg
					}
				}
				if e.P.isHarness(f.fi.fn) {
					lim = 4000
				}
				if f.seg[l.id] > lim {
					if e.feasible(g) {
						others := True
						for _, t := range e.threads {
							if t != e.cur {
								others = e.g.And(others, t.done)
							}
						}
						lbl := "bound:" + e.pos(to.Instrs[len(to.Instrs)-1])
						e.cuts = append(e.cuts, Fail{g, lbl})
						if e.stalled {
							others = True
						}
						if e.cur.id < 0 || e.lastSeg {
							// running alone: the loop does not end
							e.cuts = append(e.cuts, Fail{e.g.And(g, others), "solo:" + lbl})
						}
					}
					return nil
				}
			} else {
				f.iters[l.id] = 0
				f.seg[l.id] = 0
			}
		} else if l.members[to.Index] && !l.members[from.Index] {
			f.iters[l.id] = 0
			f.seg[l.id] = 0
		}
	}
	f.blk, f.idx = to.Index, n
	st.g = g
	return st
}

func (e *Eng) nonNil(st *State, v Val, in ssa.Instruction, what string) (*Sum, bool) {
	s, ok := v.(*Sum)
	if !ok {
		unsup("%s of %T", what, v)
	}
	bad := False
	has := false
	for _, en := range s.e {
		if en.l.k == KNil {
			bad = e.g.Or(bad, en.g)
			has = true
		}
	}
	if !has {
		return s, true
	}
	bg := e.g.And(st.g, bad)
	if len(s.e) == 1 && s.e[0].l.k == KNil {
		e.raise(st, st.g, "nil dereference ("+what+")", nil, in)
		return nil, false
	}
	if bg != False && e.feasible(bg) {
		e.raise(st, bg, "nil dereference ("+what+")", nil, in)
		st.g = e.g.And(st.g, bad.Not())
		if !e.feasible(st.g) {
			return nil, false
		}
	}
	var out []Ent
	for _, en := range s.e {
		if en.l.k != KNil {
			if e.g.And(st.g, en.g) != False {
				out = append(out, en)
			}
		}
	}
	if len(out) == 0 {
		return nil, false
	}
	if len(out) == 1 {
		return constSum(out[0].l), true
	}
	return &Sum{out}, true
}

func (e *Eng) cellOf(l Leaf) int {
	if l.k != KPtr {
		unsup("cell of %v", l)
	}
	return e.objs[l.a].base + int(l.b)
}

func (e *Eng) readAt(t types.Type, at int) (Val, int) {
	if classOf(t) == cAgg {
		var out []Val
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				var v Val
				v, at = e.readAt(u.Field(i).Type(), at)
				out = append(out, v)
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				var v Val
				v, at = e.readAt(u.Elem(), at)
				out = append(out, v)
			}
		}
		return &Agg{out}, at
	}
	v := e.cells[at]
	if v == nil {
		v = e.zero(t)
	}
	return v, at + 1
}

func (e *Eng) writeAt(t types.Type, at int, g Lit, v Val) int {
	if classOf(t) == cAgg {
		a := v.(*Agg)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				at = e.writeAt(u.Field(i).Type(), at, g, a.e[i])
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				at = e.writeAt(u.Elem(), at, g, a.e[i])
			}
		}
		return at
	}
	if e.cells[at] == nil {
		e.cells[at] = e.zero(t)
	}
	e.cells[at] = e.ite(g, v, e.cells[at])
	return at + 1
}

func (e *Eng) load(g Lit, p *Sum, t types.Type) Val {
	if len(p.e) == 1 {
		v, _ := e.readAt(t, e.cellOf(p.e[0].l))
		return e.restrict(v, g)
	}
	var acc Val
	var ents []Ent
	allSum := true
	for _, en := range p.e {
		if e.g.And(g, en.g) == False {
			continue
		}
		v, _ := e.readAt(t, e.cellOf(en.l))
		if s, ok := v.(*Sum); ok && allSum {
			for _, x := range s.e {
				ents = append(ents, Ent{e.g.And(en.g, x.g), x.l})
			}
		} else {
			allSum = false
		}
		if !allSum {
			break
		}
	}
	if allSum {
		v := e.sumFrom(ents)
		if v == nil {
			return e.zero(t)
		}
		return e.restrict(v, g)
	}
	for _, en := range p.e {
		if e.g.And(g, en.g) == False {
			continue
		}
		v, _ := e.readAt(t, e.cellOf(en.l))
		acc = e.ite(en.g, v, acc)
	}
	if acc == nil {
		return e.zero(t)
	}
	return acc
}

func (e *Eng) markEscape(v Val) {
	switch x := v.(type) {
	case *Sum:
		for _, en := range x.e {
			switch en.l.k {
			case KPtr, KSlice:
				e.escape(int(en.l.a))
			case KFunc:
				for _, b := range en.l.p.(*Closure).binds {
					e.markEscape(b)
				}
			case KIface:
				e.markEscape(en.l.p.(*Iface).v)
			}
		}
	case *Agg:
		for _, y := range x.e {
			e.markEscape(y)
		}
	}
}

func (e *Eng) escape(id int) {
	o := e.objs[id]
	if o.thread >= 0 {
		o.escG = e.g.Or(o.escG, e.escNow)
	}
	if o.escaped {
		return
	}
	o.escaped = true
	for i := o.base; i < o.base+o.n; i++ {
		if e.cells[i] != nil {
			e.markEscape(e.cells[i])
		}
	}
}

func (e *Eng) store(g Lit, p *Sum, t types.Type, v Val) {
	esc := False
	for _, en := range p.e {
		pg := g
		if len(p.e) > 1 {
			pg = e.g.And(g, en.g)
		}
		if pg == False {
			continue
		}
		o := e.objs[en.l.a]
		if o.escaped {
			esc = e.g.Or(esc, pg)
		}
		if pg != True && e.g.And(o.g, pg.Not()) == False {
			pg = True
		}
		e.writeAt(t, e.cellOf(en.l), pg, v)
	}
	if esc != False {
		e.escNow = esc
		e.markEscape(v)
	}
}

// exposed reports whether a goroutine's access may be to memory of which another one knows by now.
func (e *Eng) exposed(st *State, p *Sum) bool {
	for _, en := range p.e {
		if en.l.k != KPtr {
			continue
		}
		o := e.objs[en.l.a]
		if !o.heap || !o.escaped {
			continue
		}
		g := e.g.And(st.g, en.g)
		if o.thread == e.cur.id {
			g = e.g.And(g, o.escG)
		}
		if e.feasible(g) {
			return true
		}
	}
	return false
}

// shared reports whether an access may be observed by another goroutine.
func (e *Eng) shared(p *Sum) bool {
	for _, en := range p.e {
		if en.l.k == KPtr {
			o := e.objs[en.l.a]
			if o.heap && o.escaped {
				return true
			}
		}
	}
	return false
}

// raceCheck compares an access with the pending accesses of the other goroutines.
func (e *Eng) raceCheck(st *State, p *Sum, n int, write, atomic bool, in ssa.Instruction) {
	if !e.raceMode || e.cur.id < 0 {
		return
	}
	if e.P.isHarness(in.Parent()) || !e.shared(p) {
		return
	}
	for _, t := range e.threads {
		if t == e.cur {
			continue
		}
		for _, o := range t.parked {
			a := o.pend
			if a == nil || (!a.write && !write) || (a.atomic && atomic) {
				continue
			}
			hit := False
			for _, x := range p.e {
				for _, y := range a.addr.e {
					if x.l.k != KPtr || y.l.k != KPtr || x.l.a != y.l.a {
						continue
					}
					if x.l.b < y.l.b+int64(a.n) && y.l.b < x.l.b+int64(n) {
						hit = e.g.Or(hit, e.g.And(x.g, y.g))
					}
				}
			}
			if hit == False {
				continue
			}
			g := e.g.And(hit, e.g.And(st.g, o.g))
			if g == False || !e.feasible(g) {
				continue
			}
			k := a.pos + " | " + e.pos(in)
			e.races[k] = e.g.Or(e.races[k], g)
		}
	}
}

// visible parks part of st before a visible operation and records the operation for the rest.
func (e *Eng) visible(st *State, in ssa.Instruction, acc *access, stop bool) {
	if e.cur.id < 0 {
		return
	}
	e.maybeStop(st, in, acc, stop)
	e.visEvent(st, in)
}

func (e *Eng) visibleLock(st *State, in ssa.Instruction, p *Sum, write bool) {
	if e.cur.id < 0 {
		return
	}
	e.maybeStop(st, in, &access{addr: p, n: 1, write: write, atomic: true, pos: e.pos(in)}, e.shared(p))
}

func (e *Eng) maybeStop(st *State, in ssa.Instruction, acc *access, stop bool) {
	if stop && e.canStop && !st.fresh {
		s := e.g.Input(fmt.Sprintf("stop_t%d_r%d_%s#%d", e.cur.id, e.round, e.pos(in), e.nvis))
		e.nvis++
		// deep points should stay reachable in simulation
		e.g.sim[s.node()] &= e.g.rng.Uint64() & e.g.rng.Uint64() & e.g.rng.Uint64()
		p := st.fork(e.g.And(st.g, s))
		p.pend = acc
		p.fresh = true
		e.cur.parked = append(e.cur.parked, p)
		st.g = e.g.And(st.g, s.Not())
		e.switches++
	}
	if stop {
		st.fresh = false
	}
}

// plainStop lets the goroutine stop before a plain store into memory that others can reach. It does
// not count as an operation of the schedule: the segment names the place.
func (e *Eng) plainStop(st *State, in ssa.Instruction) {
	n := len(e.cur.parked)
	e.maybeStop(st, in, nil, true)
	for _, p := range e.cur.parked[n:] {
		e.plainStops++
		if os.Getenv("VDBG2") != "" {
			fmt.Fprintln(os.Stderr, "PLAIN", e.pos(in))
		}
		e.events = append(e.events, Event{g: p.g, thread: e.cur.id, round: e.round, kind: "plain", info: e.pos(in)})
	}
}

// visEvent records that st executes an operation at which the native scheduler may switch.
func (e *Eng) visEvent(st *State, in ssa.Instruction) {
	if e.cur.id >= 0 && st.g != False {
		e.visOps++
		e.events = append(e.events, Event{g: st.g, thread: e.cur.id, round: e.round, kind: "vis", info: e.pos(in)})
	}
}

func (e *Eng) setReg(f *Frame, v ssa.Value, x Val) { f.regs[f.fi.regs[v]] = x }

// step runs st until it branches, calls, returns or stops.
func (e *Eng) step(st *State) {
	if st.top().panicking {
		e.unwind(st)
		return
	}
	f := st.own()
	for {
		in := f.fi.fn.Blocks[f.blk].Instrs[f.idx]
		e.instrs++
		if e.trace {
			fmt.Fprintf(os.Stderr, "[t%d r%d g%d] %s b%d.%d %v\n", e.cur.id, e.round, st.g, f.fi.fn.Name(), f.blk, f.idx, in)
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := x.Type().Underlying().(*types.Pointer).Elem()
			var o *Obj
			if x.Heap && e.sizeOf(t) == 0 {
				// All zero-size heap variables have the same address in Go's implementation.
				if e.zeroBase == nil {
					e.zeroBase = e.alloc(t, false, "zerobase")
					e.zeroBase.thread, e.zeroBase.escaped = -1, true
				}
				o = e.zeroBase
			} else {
				o = e.alloc(t, x.Heap && !e.P.isHarness(f.fi.fn), e.pos(in))
				o.g = st.g
			}
			e.setReg(f, x, constSum(ptrLeaf(o.id, 0)))
		case *ssa.UnOp:
			if !e.unop(st, f, x) {
				return
			}
		case *ssa.BinOp:
			dz := False
			v := e.binop(x.Op, x.X.Type(), x.Y.Type(), e.eval(f, x.X), e.eval(f, x.Y), &dz)
			if dz != False {
				bg := e.g.And(st.g, dz)
				if e.feasible(bg) {
					e.raise(st, bg, "integer divide by zero or negative shift", nil, in)
					st.g = e.g.And(st.g, dz.Not())
					if !e.feasible(st.g) {
						return
					}
				}
			}
			if x.Op == token.EQL || x.Op == token.NEQ {
				if bad := e.cmpPanic(x.X.Type(), e.eval(f, x.X), e.eval(f, x.Y)); bad != False {
					bg := e.g.And(st.g, bad)
					if e.feasible(bg) {
						e.raise(st, bg, "comparing uncomparable type", nil, in)
						st.g = e.g.And(st.g, bad.Not())
						if !e.feasible(st.g) {
							return
						}
					}
				}
			}
			e.setReg(f, x, v)
		case *ssa.ChangeType:
			e.setReg(f, x, e.eval(f, x.X))
		case *ssa.ChangeInterface:
			e.setReg(f, x, e.eval(f, x.X))
		case *ssa.Convert:
			v, ok := e.convBytes(st, f, x, e.eval(f, x.X))
			if !ok {
				v = e.convert(e.eval(f, x.X), x.X.Type(), x.Type())
			}
			e.setReg(f, x, v)
		case *ssa.MakeInterface:
			e.setReg(f, x, constSum(Leaf{k: KIface, p: &Iface{x.X.Type(), e.eval(f, x.X)}}))
		case *ssa.MakeClosure:
			c := &Closure{fn: x.Fn.(*ssa.Function)}
			for _, b := range x.Bindings {
				c.binds = append(c.binds, e.eval(f, b))
			}
			e.setReg(f, x, constSum(Leaf{k: KFunc, p: c}))
		case *ssa.FieldAddr:
			p, ok := e.nonNil(st, e.eval(f, x.X), in, "field address")
			if !ok {
				return
			}
			stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			e.setReg(f, x, e.shift(p, int64(e.fieldOff(stt, x.Field))))
		case *ssa.Field:
			e.setReg(f, x, e.eval(f, x.X).(*Agg).e[x.Field])
		case *ssa.IndexAddr:
			if !e.indexAddr(st, f, x) {
				return
			}
		case *ssa.Index:
			if !e.index(st, f, x) {
				return
			}
		case *ssa.Lookup:
			unsup("map lookup in %v", f.fi.fn)
		case *ssa.Extract:
			e.setReg(f, x, e.eval(f, x.Tuple).(*Agg).e[x.Index])
		case *ssa.Slice:
			if !e.slice(st, f, x) {
				return
			}
		case *ssa.MakeSlice:
			e.makeSlice(st, f, x)
		case *ssa.TypeAssert:
			if !e.typeAssert(st, f, x) {
				return
			}
		case *ssa.Store:
			p, ok := e.nonNil(st, e.eval(f, x.Addr), in, "store")
			if !ok {
				return
			}
			t := x.Val.Type()
			if e.cur.id >= 0 && !e.P.isHarness(f.fi.fn) && e.shared(p) {
				if e.raceMode {
					e.maybeStop(st, in, &access{addr: p, n: e.sizeOf(t), write: true, pos: e.pos(in)}, true)
				} else if e.canStop && e.exposed(st, p) {
					e.plainStop(st, in)
				}
				if st.g == False {
					return
				}
				f = st.own()
				e.raceCheck(st, p, e.sizeOf(t), true, false, in)
			}
			e.store(st.g, p, t, e.eval(f, x.Val))
		case *ssa.Call:
			if done := e.call(st, f, x); done {
				return
			}
			f = st.own()
			continue // call advanced idx or pushed a frame
		case *ssa.Defer:
			d := &Deferred{g: True, call: &x.Call, site: in}
			if !x.Call.IsInvoke() {
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					d.fn = e.eval(f, x.Call.Value)
				}
			} else {
				d.fn = e.eval(f, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.eval(f, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				f.ran++
				if d.g != True {
					skip := st.fork(e.g.And(st.g, d.g.Not()))
					e.q.add(skip)
					st.g = e.g.And(st.g, d.g)
					if st.g == False {
						return
					}
				}
				e.callDeferred(st, d)
				return
			}
			f.ran = 0
		case *ssa.Jump:
			to := f.fi.fn.Blocks[f.blk].Succs[0]
			if s := e.edge(st, to, st.g); s != nil {
				e.q.add(s)
			}
			return
		case *ssa.If:
			e.branch(st, f, e.eval(f, x.Cond).(Lit))
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, e.eval(f, r))
			}
			e.doReturn(st, res)
			return
		case *ssa.Panic:
			e.raise(st, st.g, "panic "+e.show(e.eval(f, x.X)), e.eval(f, x.X), in)
			return
		default:
			unsup("instruction %T (%v) in %v", in, in, f.fi.fn)
		}
		f.idx++
	}
}

func (e *Eng) branch(st *State, f *Frame, c Lit) {
	b := f.fi.fn.Blocks[f.blk]
	gt, gf := e.g.And(st.g, c), e.g.And(st.g, c.Not())
	if e.prune && gt != False && gf != False && !e.P.isHarness(f.fi.fn) {
		if !e.feasible(gt) {
			gt, gf = False, st.g
		} else if !e.feasible(gf) {
			gt, gf = st.g, False
		}
	}
	if gt == False || gf == False {
		to, g := b.Succs[0], gt
		if gt == False {
			to, g = b.Succs[1], gf
		}
		if g == False {
			return
		}
		if s := e.edge(st, to, g); s != nil {
			e.q.add(s)
		}
		return
	}
	s2 := st.fork(gf)
	if s := e.edge(st, b.Succs[0], gt); s != nil {
		e.q.add(s)
	}
	if s := e.edge(s2, b.Succs[1], gf); s != nil {
		e.q.add(s)
	}
}

func (e *Eng) doReturn(st *State, res []Val) {
	f := st.top()
	st.fr = st.fr[:len(st.fr)-1]
	if len(st.fr) == 0 {
		e.cur.done = e.g.Or(e.cur.done, st.g)
		if e.onReturn != nil {
			e.onReturn(st.g, res)
		}
		return
	}
	c := st.own()
	if f.isDefer {
		// deferred call finished: the caller re-runs RunDefers or keeps unwinding
		e.q.add(st)
		return
	}
	e.setCallResult(c, f.call, res)
	c.idx++
	e.q.add(st)
}

func (e *Eng) setCallResult(c *Frame, call ssa.CallInstruction, res []Val) {
	v, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	switch len(res) {
	case 0:
		c.regs[c.fi.regs[v]] = &Agg{}
	case 1:
		c.regs[c.fi.regs[v]] = res[0]
	default:
		c.regs[c.fi.regs[v]] = &Agg{res}
	}
}

func (e *Eng) shift(p *Sum, off int64) *Sum {
	if off == 0 {
		return p
	}
	out := make([]Ent, len(p.e))
	for i, en := range p.e {
		l := en.l
		l.b += off
		out[i] = Ent{en.g, l}
	}
	return &Sum{out}
}

func (e *Eng) unop(st *State, f *Frame, x *ssa.UnOp) bool {
	v := e.eval(f, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := e.nonNil(st, v, x, "load")
		if !ok {
			return false
		}
		t := x.Type()
		if e.raceMode && e.cur.id >= 0 {
			e.raceCheck(st, p, e.sizeOf(t), false, false, x)
		}
		e.setReg(f, x, e.load(st.g, p, t))
	case token.NOT:
		e.setReg(f, x, v.(Lit).Not())
	case token.SUB:
		if classOf(x.Type()) == cFloat {
			w, _ := bitsOf(x.Type())
			if s, ok := v.(*Sum); ok {
				var m []Ent
				for _, en := range s.e {
					m = append(m, Ent{en.g, intLeaf(fbits(-fval(en.l.a, w), w))})
				}
				e.setReg(f, x, e.sumFrom(m))
				return true
			}
			b := append([]Lit{}, v.(*BV).b...)
			b[w-1] = b[w-1].Not()
			e.setReg(f, x, &BV{b})
			return true
		}
		e.setReg(f, x, e.binop(token.SUB, x.Type(), x.Type(), zeroInt, v, nil))
	case token.XOR:
		w, s := bitsOf(x.Type())
		e.setReg(f, x, e.binop(token.XOR, x.Type(), x.Type(), v, intSum(norm(-1, w, s)), nil))
	default:
		unsup("unop %v", x.Op)
	}
	return true
}

// splitIndex checks an index against [0,n) and returns its concrete alternatives.
func (e *Eng) splitIndex(st *State, v Val, it types.Type, n int, in ssa.Instruction) ([]Ent, bool) {
	var ents []Ent
	switch s := v.(type) {
	case *Sum:
		bad := False
		for _, en := range s.e {
			if en.l.a < 0 || en.l.a >= int64(n) {
				bad = e.g.Or(bad, en.g)
			} else {
				ents = append(ents, en)
			}
		}
		if bad != False {
			bg := e.g.And(st.g, bad)
			if e.feasible(bg) {
				e.raise(st, bg, "index out of range", nil, in)
				st.g = e.g.And(st.g, bad.Not())
				if !e.feasible(st.g) {
					return nil, false
				}
			}
		}
	case *BV:
		w, _ := bitsOf(it)
		in_ := False
		for i := 0; i < n; i++ {
			g := e.bvEq(s.b[:w], e.toBV(intSum(int64(i)), w).b)
			in_ = e.g.Or(in_, g)
			ents = append(ents, Ent{g, intLeaf(int64(i))})
		}
		bg := e.g.And(st.g, in_.Not())
		if e.feasible(bg) {
			e.raise(st, bg, "index out of range", nil, in)
			st.g = e.g.And(st.g, in_)
			if !e.feasible(st.g) {
				return nil, false
			}
		}
	default:
		unsup("index %T", v)
	}
	if len(ents) == 0 {
		return nil, false
	}
	return ents, true
}

func (e *Eng) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) bool {
	base := e.eval(f, x.X)
	iv := e.eval(f, x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		p, ok := e.nonNil(st, base, x, "index address")
		if !ok {
			return false
		}
		ents, ok := e.splitIndex(st, iv, x.Index.Type(), int(arr.Len()), x)
		if !ok {
			return false
		}
		es := int64(e.sizeOf(arr.Elem()))
		var m []Ent
		for _, a := range p.e {
			for _, i := range ents {
				l := a.l
				l.b += i.l.a * es
				m = append(m, Ent{e.g.And(a.g, i.g), l})
			}
		}
		e.setReg(f, x, e.restrict(e.sumFrom(m), st.g))
		return true
	case *types.Slice:
		es := int64(e.sizeOf(t.Elem()))
		s := base.(*Sum)
		var m []Ent
		bad := False
		is, ok := iv.(*Sum)
		if !ok {
			n := int64(0)
			for _, a := range s.e {
				if a.l.k == KSlice && a.l.c > n {
					n = a.l.c
				}
			}
			ents, ok := e.splitIndex(st, iv, x.Index.Type(), int(n), x)
			if !ok {
				return false
			}
			is = &Sum{e: ents}
		}
		for _, a := range s.e {
			for _, i := range is.e {
				g := e.g.And(a.g, i.g)
				if a.l.k == KNil || i.l.a < 0 || i.l.a >= a.l.c {
					bad = e.g.Or(bad, g)
					continue
				}
				m = append(m, Ent{g, ptrLeaf(int(a.l.a), int(a.l.b+i.l.a*es))})
			}
		}
		if bad != False {
			bg := e.g.And(st.g, bad)
			if e.feasible(bg) {
				e.raise(st, bg, "slice index out of range", nil, x)
				st.g = e.g.And(st.g, bad.Not())
				if !e.feasible(st.g) {
					return false
				}
			}
		}
		v := e.sumFrom(m)
		if v == nil {
			return false
		}
		e.setReg(f, x, e.restrict(v, st.g))
		return true
	}
	unsup("index address of %v", x.X.Type())
	return false
}

func (e *Eng) index(st *State, f *Frame, x *ssa.Index) bool {
	base := e.eval(f, x.X)
	iv := e.eval(f, x.Index)
	switch t := x.X.Type().Underlying().(type) {
	case *types.Array:
		ents, ok := e.splitIndex(st, iv, x.Index.Type(), int(t.Len()), x)
		if !ok {
			return false
		}
		var acc Val
		for _, i := range ents {
			acc = e.ite(i.g, base.(*Agg).e[i.l.a], acc)
		}
		e.setReg(f, x, acc)
		return true
	case *types.Basic: // string
		is, ok := iv.(*Sum)
		if !ok {
			unsup("symbolic string index")
		}
		s := e.toStrAny(base)
		var acc Val
		bad := True
		for _, i := range is.e {
			if i.l.a < 0 || i.l.a >= maxStr {
				continue
			}
			inr := e.bvUlt(e.toBV(intSum(i.l.a), lenBits).b, s.n)
			bad = e.g.And(bad, e.g.And(i.g, inr).Not())
			acc = e.ite(i.g, &BV{append([]Lit{}, s.by[i.l.a]...)}, acc)
		}
		bg := e.g.And(st.g, bad)
		if bg != False && e.feasible(bg) {
			e.raise(st, bg, "string index out of range", nil, x)
			st.g = e.g.And(st.g, bad.Not())
			if !e.feasible(st.g) {
				return false
			}
		}
		if acc == nil {
			return false
		}
		e.setReg(f, x, acc)
		return true
	}
	unsup("index of %v", x.X.Type())
	return false
}

func (e *Eng) toStrAny(v Val) *SymStr { return e.toStr(v) }

// cut is one value a slice bound can take, and when it does.
type cut struct {
	g Lit
	n int64
}

// bounds lists the values between 0 and most of a slice bound.
func (e *Eng) bounds(f *Frame, v ssa.Value, def, most int64) []cut {
	if v == nil {
		return []cut{{True, def}}
	}
	var r []cut
	switch b := e.eval(f, v).(type) {
	case *Sum:
		for _, en := range b.e {
			g := en.g
			if len(b.e) == 1 {
				g = True
			}
			if en.l.a >= 0 && en.l.a <= most {
				r = append(r, cut{g, en.l.a})
			}
		}
	case *BV:
		for n := int64(0); n <= most; n++ {
			if g := e.bvEq(b.b, e.toBV(intSum(n), len(b.b)).b); g != False {
				r = append(r, cut{g, n})
			}
		}
	default:
		unsup("slice bound %T", b)
	}
	return r
}

// badCut panics where the bounds of a slice expression are out of range.
func (e *Eng) badCut(st *State, good Lit, x *ssa.Slice) bool {
	if bg := e.g.And(st.g, good.Not()); bg != False && e.feasible(bg) {
		e.raise(st, bg, "slice bounds out of range", nil, x)
		st.g = e.g.And(st.g, good)
		return e.feasible(st.g)
	}
	return true
}

func (e *Eng) slice(st *State, f *Frame, x *ssa.Slice) bool {
	good := False
	var m []Ent
	// part adds what the expression takes of one operand with n elements and
	// room for max.
	part := func(g Lit, n, max int64, mk func(lo, hi, mx int64) Leaf) {
		ls, hs, ms := e.bounds(f, x.Low, 0, max), e.bounds(f, x.High, n, max), e.bounds(f, x.Max, max, max)
		for _, l := range ls {
			for _, h := range hs {
				for _, mx := range ms {
					if h.n < l.n || mx.n < h.n {
						continue
					}
					c := e.g.And(e.g.And(g, l.g), e.g.And(h.g, mx.g))
					if c == False || e.g.And(c, st.g) == False {
						continue
					}
					good = e.g.Or(good, c)
					m = append(m, Ent{c, mk(l.n, h.n, mx.n)})
				}
			}
		}
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		p, ok := e.nonNil(st, e.eval(f, x.X), x, "slice")
		if !ok {
			return false
		}
		es := int64(e.sizeOf(arr.Elem()))
		for _, a := range p.e {
			part(a.g, arr.Len(), arr.Len(), func(lo, hi, mx int64) Leaf {
				return Leaf{k: KSlice, a: a.l.a, b: a.l.b + lo*es, c: hi - lo, d: mx - lo}
			})
		}
	case *types.Slice:
		es := int64(e.sizeOf(t.Elem()))
		for _, a := range e.eval(f, x.X).(*Sum).e {
			part(a.g, a.l.c, a.l.d, func(lo, hi, mx int64) Leaf {
				if a.l.k == KNil {
					return a.l
				}
				return Leaf{k: KSlice, a: a.l.a, b: a.l.b + lo*es, c: hi - lo, d: mx - lo}
			})
		}
	case *types.Basic:
		s := e.eval(f, x.X)
		if ss, ok := s.(*SymStr); ok {
			return e.sliceStr(st, f, x, ss)
		}
		for _, a := range s.(*Sum).e {
			str := a.l.p.(string)
			part(a.g, int64(len(str)), int64(len(str)), func(lo, hi, _ int64) Leaf {
				return Leaf{k: KStr, p: str[lo:hi]}
			})
		}
	default:
		unsup("slice of %v", x.X.Type())
	}
	if !e.badCut(st, good, x) {
		return false
	}
	v := e.sumFrom(m)
	if v == nil {
		return false
	}
	e.setReg(f, x, v)
	return true
}

// sliceStr cuts a symbolic string.
func (e *Eng) sliceStr(st *State, f *Frame, x *ssa.Slice, s *SymStr) bool {
	good := True
	bound := func(v ssa.Value, def []Lit) []Lit {
		if v == nil {
			return def
		}
		b := e.toBV(e.eval(f, v), 64).b
		for _, h := range b[lenBits:] {
			good = e.g.And(good, h.Not())
		}
		return b[:lenBits]
	}
	lo := bound(x.Low, make([]Lit, lenBits))
	hi := bound(x.High, s.n)
	good = e.g.And(good, e.g.And(e.bvUlt(hi, lo).Not(), e.bvUlt(s.n, hi).Not()))
	if !e.badCut(st, good, x) {
		return false
	}
	r := &SymStr{n: e.bvAdd(hi, bvNot(lo), True), by: s.by}
	for k, b := range lo {
		if b == False {
			continue
		}
		by := r.by
		for i := range by {
			r.by[i] = make([]Lit, 8)
			for j := range r.by[i] {
				up := False
				if i+1<<k < maxStr {
					up = by[i+1<<k][j]
				}
				r.by[i][j] = e.g.Ite(b, up, by[i][j])
			}
		}
	}
	for i, by := range r.by {
		in := e.bvUlt(e.toBV(intSum(int64(i)), lenBits).b, r.n)
		r.by[i] = make([]Lit, 8)
		for j := range by {
			r.by[i][j] = e.g.And(in, by[j])
		}
	}
	e.setReg(f, x, r)
	return true
}

func (e *Eng) makeSlice(st *State, f *Frame, x *ssa.MakeSlice) {
	l, ok := e.eval(f, x.Len).(*Sum)
	c, ok2 := e.eval(f, x.Cap).(*Sum)
	if !ok || !ok2 || len(l.e)*len(c.e) > 64 {
		unsup("symbolic slice size")
	}
	el := x.Type().Underlying().(*types.Slice).Elem()
	var m []Ent
	for _, le := range l.e {
		for _, ce := range c.e {
			g := e.g.And(le.g, ce.g)
			n, ln := ce.l.a, le.l.a
			if g == False || len(l.e)*len(c.e) > 1 && !e.feasible(e.g.And(st.g, g)) {
				continue
			}
			if x.Len == x.Cap {
				ln = n
			}
			if n < 0 || n > 1<<16 || ln < 0 || ln > n {
				unsup("slice size %d, %d", ln, n)
			}
			o := e.alloc(types.NewArray(el, n), !e.P.isHarness(f.fi.fn), e.pos(x))
			o.g = e.g.And(st.g, g)
			m = append(m, Ent{g, Leaf{k: KSlice, a: int64(o.id), c: ln, d: n}})
		}
	}
	e.setReg(f, x, e.restrict(e.sumFrom(m), st.g))
}

func (e *Eng) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) bool {
	s := e.eval(f, x.X).(*Sum)
	okG := False
	var val Val
	iface := types.IsInterface(x.AssertedType)
	for _, en := range s.e {
		if en.l.k != KIface {
			continue
		}
		i := en.l.p.(*Iface)
		if iface {
			if types.Implements(i.t, x.AssertedType.Underlying().(*types.Interface)) {
				okG = e.g.Or(okG, en.g)
				val = e.ite(en.g, constSum(en.l), val)
			}
		} else if types.Identical(i.t, x.AssertedType) {
			okG = e.g.Or(okG, en.g)
			val = e.ite(en.g, i.v, val)
		}
	}
	z := e.zero(x.AssertedType)
	if val == nil {
		val = z
	}
	if x.CommaOk {
		e.setReg(f, x, &Agg{[]Val{e.ite(okG, val, z), okG}})
		return true
	}
	bg := e.g.And(st.g, okG.Not())
	if bg != False && e.feasible(bg) {
		e.raise(st, bg, "interface conversion", nil, x)
		st.g = e.g.And(st.g, okG)
		if !e.feasible(st.g) {
			return false
		}
	}
	e.setReg(f, x, val)
	return true
}
