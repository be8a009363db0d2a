package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The map types are generated from one template. classDigest describes the code of one map type
// with the key type left out and comparisons of keys replaced by what they have been proved to
// compute; map types with equal descriptions behave alike on keys of equal order, so a scenario
// is run for one of them.

var mapMethods = []string{"Store", "Load", "LoadAndDelete", "LoadOrStore", "LoadOrStoreLazy", "Delete", "Range", "Len"}

type classer struct {
	p     *Prog
	key   types.Type
	desc  bool
	fns   []*ssa.Function
	num   map[*ssa.Function]int
	taint map[ssa.Value]bool
	cell  map[ssa.Value]bool // address (alloc, free variable) of a key
	field map[string]bool
	ret   map[*ssa.Function]map[int]bool
	tynum map[string]int
	tydef []string
	cmp   map[string]string
	nq    int
	dirty bool
}

func (p *Prog) classDigest(variant string) (dig string, funcs []string, queries int, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	mk := p.pkg.Func("vMk_" + variant)
	if mk == nil {
		return "", nil, 0, fmt.Errorf("no constructor for %s", variant)
	}
	p.ensureBuilt(mk)
	c := &classer{p: p, desc: strings.HasSuffix(variant, "desc"), num: map[*ssa.Function]int{}, taint: map[ssa.Value]bool{}, cell: map[ssa.Value]bool{}, field: map[string]bool{}, ret: map[*ssa.Function]map[int]bool{}, tynum: map[string]int{}, cmp: map[string]string{}}
	c.key = mk.Signature.Results().At(0).Type().(*types.Named).TypeArgs().At(0)
	var mt types.Type
	for _, b := range mk.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeInterface); ok {
				mt = m.X.Type()
			}
		}
	}
	if mt == nil {
		return "", nil, 0, fmt.Errorf("no map type for %s", variant)
	}
	var roots []*ssa.Function
	for _, n := range mapMethods {
		sel := p.prog.MethodSets.MethodSet(mt).Lookup(p.pkg.Pkg, n)
		if sel == nil {
			return "", nil, 0, fmt.Errorf("no method %s", n)
		}
		buildMu.Lock()
		fn := p.prog.MethodValue(sel)
		buildMu.Unlock()
		roots = append(roots, fn)
		if types.Identical(fn.Params[len(fn.Params)-1].Type(), c.key) && len(fn.Params) == 2 {
			c.taint[fn.Params[1]] = true
		}
		if len(fn.Params) == 3 {
			c.taint[fn.Params[1]] = true
		}
	}
	c.reach(append([]*ssa.Function{mk}, roots...))
	for {
		c.dirty = false
		for _, fn := range c.fns {
			c.flow(fn)
		}
		if !c.dirty {
			break
		}
	}
	// number functions from the roots, leaving out proved comparators
	c.fns, c.num = nil, map[*ssa.Function]int{}
	var sb strings.Builder
	c.add(mk)
	for _, r := range roots {
		c.add(r)
	}
	for i := 0; i < len(c.fns); i++ {
		c.print(&sb, c.fns[i])
	}
	sort.Strings(c.tydef)
	for _, t := range c.tydef {
		sb.WriteString(t + "\n")
	}
	for _, f := range c.fns {
		funcs = append(funcs, f.String())
	}
	if debugClass {
		fmt.Println("=====", variant)
		fmt.Println(sb.String())
	}
	h := sha256.Sum256([]byte(sb.String()))
	return fmt.Sprintf("%x", h[:8]), funcs, c.nq, nil
}

var debugClass bool

func (c *classer) mine(fn *ssa.Function) bool {
	c.p.ensureBuilt(fn)
	return len(fn.Blocks) > 0 && (c.p.inTarget(fn) || c.p.isHarness(fn))
}

func (c *classer) reach(work []*ssa.Function) {
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if _, ok := c.num[fn]; ok || !c.mine(fn) {
			continue
		}
		c.num[fn] = len(c.fns)
		c.fns = append(c.fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						work = append(work, f)
					}
				}
			}
		}
	}
}

func (c *classer) add(fn *ssa.Function) int {
	if n, ok := c.num[fn]; ok {
		return n
	}
	c.num[fn] = len(c.fns)
	c.fns = append(c.fns, fn)
	return len(c.fns) - 1
}

func (c *classer) setT(v ssa.Value) {
	if !c.taint[v] && types.Identical(v.Type(), c.key) {
		c.taint[v] = true
		c.dirty = true
	}
}

func (c *classer) setCell(v ssa.Value) {
	if !c.cell[v] {
		c.cell[v] = true
		c.dirty = true
	}
}

func fieldKey(x *ssa.FieldAddr) string {
	return fmt.Sprintf("%s/%d", x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
}

func (c *classer) flow(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if c.taint[e] {
						c.setT(x)
					}
				}
			case *ssa.ChangeType:
				if c.taint[x.X] {
					c.setT(x)
				}
			case *ssa.Store:
				if c.taint[x.Val] {
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldKey(a)
						if !c.field[k] {
							c.field[k] = true
							c.dirty = true
						}
					case *ssa.Alloc, *ssa.FreeVar:
						c.setCell(a)
					}
				}
			case *ssa.UnOp:
				if x.Op != token.MUL {
					continue
				}
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					if c.field[fieldKey(a)] {
						c.setT(x)
					}
				case *ssa.Alloc, *ssa.FreeVar:
					if c.cell[a] {
						c.setT(x)
					}
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if i < len(f.FreeVars) {
						if c.cell[bd] {
							c.setCell(f.FreeVars[i])
						}
						if c.cell[f.FreeVars[i]] {
							c.setCell(bd)
						}
						if c.taint[bd] {
							c.setT(f.FreeVars[i])
						}
					}
				}
			case *ssa.Return:
				for i, r := range x.Results {
					if c.taint[r] && !c.ret[fn][i] {
						if c.ret[fn] == nil {
							c.ret[fn] = map[int]bool{}
						}
						c.ret[fn][i] = true
						c.dirty = true
					}
				}
			case *ssa.Extract:
				if cl, ok := x.Tuple.(*ssa.Call); ok {
					if f := cl.Call.StaticCallee(); f != nil && c.ret[f][x.Index] {
						c.setT(x)
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				f := cc.StaticCallee()
				if f == nil {
					continue
				}
				if _, ok := c.num[f]; !ok {
					continue
				}
				for i, a := range cc.Args {
					if c.taint[a] && i < len(f.Params) {
						c.setT(f.Params[i])
					}
				}
				if v, ok := x.(*ssa.Call); ok && c.ret[f][0] && f.Signature.Results().Len() == 1 {
					c.setT(v)
				}
			}
		}
	}
}

// ty prints a type without the key type and without names.
func (c *classer) ty(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		if x.Obj().Pkg() != c.p.pkg.Pkg {
			if n := x.TypeArgs().Len(); n > 0 {
				s := x.Origin().String() + "["
				for i := 0; i < n; i++ {
					s += c.ty(x.TypeArgs().At(i)) + ","
				}
				return s + "]"
			}
			return x.String()
		}
		s := x.String()
		if n, ok := c.tynum[s]; ok {
			return fmt.Sprintf("T%d", n)
		}
		n := len(c.tynum)
		c.tynum[s] = n
		if st, ok := x.Underlying().(*types.Struct); ok {
			var fs []string
			for i := 0; i < st.NumFields(); i++ {
				if c.field[fmt.Sprintf("%s/%d", x, i)] {
					fs = append(fs, "KEY")
				} else {
					fs = append(fs, c.ty(st.Field(i).Type()))
				}
			}
			c.tydef = append(c.tydef, fmt.Sprintf("type T%d {%s}", n, strings.Join(fs, ";")))
		} else {
			c.tydef = append(c.tydef, fmt.Sprintf("type T%d %s", n, c.ty(x.Underlying())))
		}
		return fmt.Sprintf("T%d", n)
	case *types.Pointer:
		return "*" + c.ty(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), c.ty(x.Elem()))
	case *types.Slice:
		return "[]" + c.ty(x.Elem())
	case *types.Signature:
		return fmt.Sprintf("func%d/%d", x.Params().Len(), x.Results().Len())
	case *types.Tuple:
		s := "("
		for i := 0; i < x.Len(); i++ {
			s += c.ty(x.At(i).Type()) + ","
		}
		return s + ")"
	case *types.Interface:
		return fmt.Sprintf("interface%d", x.NumMethods())
	}
	return t.String()
}

type fnPrinter struct {
	c    *classer
	fn   *ssa.Function
	regs map[ssa.Value]int
}

func isZeroConst(k *ssa.Const) bool {
	if k.Value == nil {
		return true
	}
	switch k.Value.Kind() {
	case constant.String:
		return constant.StringVal(k.Value) == ""
	case constant.Int, constant.Float:
		return constant.Sign(k.Value) == 0
	}
	return false
}

func (q *fnPrinter) ref(v ssa.Value, key bool) string {
	c := q.c
	switch x := v.(type) {
	case nil:
		return "_"
	case *ssa.Const:
		if key || c.taint[v] {
			if isZeroConst(x) {
				return "KEY0"
			}
			return "KEY:" + x.String()
		}
		s := "nil"
		if x.Value != nil {
			s = x.Value.ExactString()
		}
		return s + ":" + c.ty(x.Type())
	case *ssa.Parameter:
		for i, p := range q.fn.Params {
			if p == x {
				return fmt.Sprintf("P%d", i)
			}
		}
	case *ssa.FreeVar:
		for i, p := range q.fn.FreeVars {
			if p == x {
				return fmt.Sprintf("V%d", i)
			}
		}
	case *ssa.Global:
		return "G:" + x.String()
	case *ssa.Function:
		if t := c.comparator(x); t != "" {
			return t
		}
		if c.mine(x) {
			return fmt.Sprintf("F%d", c.add(x))
		}
		if o := x.Origin(); o != nil {
			return o.String()
		}
		return x.String()
	case *ssa.Builtin:
		return x.Name()
	}
	if n, ok := q.regs[v]; ok {
		return fmt.Sprintf("%%%d", n)
	}
	return "?" + v.Name()
}

func (c *classer) print(sb *strings.Builder, fn *ssa.Function) {
	c.p.ensureBuilt(fn)
	q := &fnPrinter{c: c, fn: fn, regs: map[ssa.Value]int{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				q.regs[v] = len(q.regs)
			}
		}
	}
	fmt.Fprintf(sb, "func F%d params %d free %d results %d recover %v\n", c.num[fn], len(fn.Params), len(fn.FreeVars), fn.Signature.Results().Len(), fn.Recover != nil)
	for _, b := range fn.Blocks {
		fmt.Fprintf(sb, " b%d:", b.Index)
		for _, s := range b.Succs {
			fmt.Fprintf(sb, " %d", s.Index)
		}
		sb.WriteString("\n")
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				fmt.Fprintf(sb, "  %%%d =", q.regs[v])
			} else {
				sb.WriteString("  ")
			}
			sb.WriteString(q.instr(in) + "\n")
		}
	}
}

// use prints an operand in a place where a key is inspected, so its type matters.
func (q *fnPrinter) use(v ssa.Value) string {
	if v == nil {
		return "_"
	}
	s := q.ref(v, false)
	if q.c.taint[v] {
		return s + ":" + q.c.key.String()
	}
	return s + ":" + q.c.ty(v.Type())
}

func (q *fnPrinter) instr(in ssa.Instruction) string {
	c := q.c
	switch x := in.(type) {
	case *ssa.Alloc:
		t := c.ty(x.Type())
		if c.cell[x] {
			t = "KEY"
		}
		return fmt.Sprintf("alloc %s %v", t, x.Heap)
	case *ssa.BinOp:
		if c.taint[x.X] && c.taint[x.Y] {
			if t := c.binop(x.Op); t != "" {
				return fmt.Sprintf("call %s(%s,%s,)", t, q.ref(x.X, true), q.ref(x.Y, true))
			}
		}
		return fmt.Sprintf("%s %s %s", x.Op, q.use(x.X), q.use(x.Y))
	case *ssa.Phi:
		s := "phi"
		for _, e := range x.Edges {
			s += " " + q.ref(e, c.taint[x])
		}
		if !c.taint[x] {
			s += ":" + c.ty(x.Type())
		}
		return s
	case *ssa.Store:
		key := false
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			key = c.field[fieldKey(a)]
		default:
			key = c.cell[a]
		}
		return fmt.Sprintf("store %s %s", q.ref(x.Addr, false), q.ref(x.Val, key))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "load " + q.ref(x.X, false)
		}
		return fmt.Sprintf("%s %v %s", x.Op, x.CommaOk, q.use(x.X))
	case *ssa.FieldAddr:
		return fmt.Sprintf("fieldaddr %s %d of %s", q.ref(x.X, false), x.Field, c.ty(x.X.Type()))
	case *ssa.Field:
		return fmt.Sprintf("field %s %d of %s", q.ref(x.X, false), x.Field, c.ty(x.X.Type()))
	case *ssa.IndexAddr:
		return fmt.Sprintf("indexaddr %s %s of %s", q.ref(x.X, false), q.use(x.Index), c.ty(x.X.Type()))
	case *ssa.Extract:
		return fmt.Sprintf("extract %s %d", q.ref(x.Tuple, false), x.Index)
	case *ssa.Return:
		s := "return"
		for i, r := range x.Results {
			s += " " + q.ref(r, c.ret[q.fn][i])
		}
		return s
	case *ssa.ChangeType:
		if c.taint[x.X] && c.taint[x] {
			return "keyconv " + q.ref(x.X, true)
		}
		return fmt.Sprintf("changetype %s to %s", q.ref(x.X, false), c.ty(x.Type()))
	case *ssa.MakeClosure:
		s := "closure " + q.ref(x.Fn, false)
		for _, b := range x.Bindings {
			switch {
			case c.cell[b]:
				s += " " + q.ref(b, false) + ":*KEY"
			case c.taint[b]:
				s += " " + q.ref(b, true)
			default:
				s += " " + q.use(b)
			}
		}
		return s
	case *ssa.MakeInterface:
		t := c.ty(x.X.Type())
		if c.taint[x.X] {
			t = "KEY:" + c.key.String()
		}
		return fmt.Sprintf("makeinterface %s of %s", q.ref(x.X, false), t)
	case ssa.CallInstruction:
		cc := x.Common()
		kind := "call"
		switch in.(type) {
		case *ssa.Defer:
			kind = "defer"
		case *ssa.Go:
			kind = "go"
		}
		f := cc.StaticCallee()
		if in := c.wrapped(f); in != nil {
			return (&fnPrinter{c: c, fn: f, regs: map[ssa.Value]int{}}).instr(in)
		}
		s := kind + " "
		if cc.IsInvoke() {
			s += "invoke " + cc.Method.Name() + " " + q.ref(cc.Value, false)
		} else {
			s += q.ref(cc.Value, false)
		}
		s += "("
		for i, a := range cc.Args {
			key := c.taint[a] || (f != nil && i < len(f.Params) && c.taint[f.Params[i]])
			s += q.ref(a, key)
			if !key {
				s += ":" + c.ty(a.Type())
			}
			s += ","
		}
		return s + ")"
	}
	// everything else: kind, operands and type
	s := strings.TrimPrefix(fmt.Sprintf("%T", in), "*ssa.")
	for _, op := range in.Operands(nil) {
		s += " " + q.use(*op)
	}
	if v, ok := in.(ssa.Value); ok {
		s += " " + c.ty(v.Type())
	}
	if x, ok := in.(*ssa.TypeAssert); ok {
		s += fmt.Sprintf(" %v %s", x.CommaOk, x.AssertedType)
	}
	return s
}

// binop gives the meaning of an operator on keys.
func (c *classer) binop(op token.Token) string {
	id := "op " + op.String()
	if t, ok := c.cmp[id]; ok {
		return t
	}
	t := c.prove(func(e *Eng, a, b Val) (Lit, bool) {
		l, ok := e.binop(op, c.key, c.key, a, b, nil).(Lit)
		return l, ok
	})
	c.cmp[id] = t
	return t
}

// comparator gives the meaning of a function of two keys.
func (c *classer) comparator(fn *ssa.Function) string {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || len(fn.FreeVars) > 0 || !c.mine(fn) {
		return ""
	}
	if !types.Identical(s.Params().At(0).Type(), c.key) || !types.Identical(s.Params().At(1).Type(), c.key) || classOf(s.Results().At(0).Type()) != cBool {
		return ""
	}
	id := fn.String()
	if t, ok := c.cmp[id]; ok {
		return t
	}
	c.cmp[id] = ""
	t := c.prove(func(e *Eng, a, b Val) (Lit, bool) { return e.pureCall(fn, a, b) })
	c.cmp[id] = t
	return t
}

// pureCall runs fn on the arguments and gives its result.
func (e *Eng) pureCall(fn *ssa.Function, args ...Val) (Lit, bool) {
	var out Val
	total := False
	e.onReturn = func(g Lit, res []Val) {
		if out == nil {
			out = res[0]
		} else {
			out = e.ite(g, res[0], out)
		}
		total = e.g.Or(total, g)
	}
	defer func() { e.onReturn = nil }()
	e.q = &queue{byK: map[string]*State{}, e: e}
	e.cur = &Thread{id: -1, done: False}
	st := &State{g: True}
	e.P.ensureBuilt(fn)
	e.pushFrame(st, fn, args, nil, nil, false)
	e.q.add(st)
	e.runQueue()
	l, ok := out.(Lit)
	if !ok || len(e.crashes) > 0 || len(e.cuts) > 0 || e.feasible(total.Not()) {
		return False, false
	}
	return l, true
}

// prove finds which relation of the documented order a comparison computes, for all pairs of keys.
func (c *classer) prove(f func(e *Eng, a, b Val) (Lit, bool)) (res string) {
	defer func() {
		if x := recover(); x != nil {
			res = ""
		}
	}()
	e := NewEng(c.p)
	defer e.sat.Free()
	e.params = map[string]string{}
	e.strMax = 20
	e.deadline = time.Now().Add(20 * time.Second)
	a := e.nondet("a", c.key, True, 20)
	b := e.nondet("b", c.key, True, 20)
	l, ok := f(e, a, b)
	if !ok {
		return ""
	}
	spec := "vUp"
	if c.desc {
		spec = "vDown"
	}
	less := c.p.instanceOf(spec, c.key)
	same := c.p.instanceOf("vSame", c.key)
	if less == nil || same == nil {
		return ""
	}
	ab, ok1 := e.pureCall(less, a, b)
	ba, ok2 := e.pureCall(less, b, a)
	eq, ok3 := e.pureCall(same, a, b)
	if !ok1 || !ok2 || !ok3 {
		return ""
	}
	for _, t := range []struct {
		n string
		l Lit
	}{{"LESS", ab}, {"GREATER", ba}, {"SAME", eq}, {"LESSEQ", ba.Not()}, {"GREATEREQ", ab.Not()}, {"DIFFERENT", eq.Not()}} {
		c.nq++
		if k, _ := e.decide(e.g.Eq(l, t.l).Not()); k == 0 {
			return t.n
		}
	}
	return ""
}

// instanceOf finds the instance of a generic harness function for one type argument.
func (p *Prog) instanceOf(name string, t types.Type) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.insts == nil {
		p.insts = map[string][]*ssa.Function{}
		for fn := range allFunctions(p.prog) {
			if o := fn.Origin(); o != nil && o.Pkg == p.pkg {
				p.insts[o.Name()] = append(p.insts[o.Name()], fn)
			}
		}
	}
	for _, fn := range p.insts[name] {
		if ta := fn.TypeArgs(); len(ta) == 1 && types.Identical(ta[0], t) {
			return fn
		}
	}
	return nil
}

// wrapped gives the call that a function without parameters consists of.
func (c *classer) wrapped(f *ssa.Function) ssa.Instruction {
	if f == nil || len(f.Params)+len(f.FreeVars) > 0 || !c.mine(f) || len(f.Blocks) != 1 || len(f.Blocks[0].Instrs) != 2 {
		return nil
	}
	call, ok := f.Blocks[0].Instrs[0].(*ssa.Call)
	ret, ok2 := f.Blocks[0].Instrs[1].(*ssa.Return)
	if !ok || !ok2 || len(ret.Results) != 1 || ret.Results[0] != ssa.Value(call) || call.Call.StaticCallee() == nil {
		return nil
	}
	for _, a := range call.Call.Args {
		switch a.(type) {
		case *ssa.Const, *ssa.Function:
		default:
			return nil
		}
	}
	return call
}
