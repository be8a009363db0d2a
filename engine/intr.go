package main

import (
	"go/token"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tokAdd = token.ADD
	tokAnd = token.AND
	tokOr  = token.OR
	tokLss = token.LSS
	tokGtr = token.GTR
)

func identity(c *icall) ([]Val, bool) { return []Val{c.args[0]}, true }

func nothing(c *icall) ([]Val, bool) {
	var out []Val
	for i := 0; i < c.fn.Signature.Results().Len(); i++ {
		out = append(out, c.e.zero(c.res(i)))
	}
	return out, true
}

func yieldOp(c *icall) ([]Val, bool) {
	c.e.visible(c.st, c.site, nil, true)
	return nil, c.st.g != False
}

// bitFn maps a word to a small integer: concrete unions pointwise, bit-vectors by a priority chain.
func bitFn(w int, f func(uint64) int) intrinsicFn {
	return func(c *icall) ([]Val, bool) {
		e := c.e
		switch x := c.args[0].(type) {
		case *Sum:
			var m []Ent
			for _, en := range x.e {
				m = append(m, Ent{en.g, intLeaf(int64(f(uint64(en.l.a) & (^uint64(0) >> (64 - w)))))})
			}
			return []Val{e.sumFrom(m)}, true
		case *BV:
			// trailing and leading zero counts and lengths depend on one end only
			if f(1) == f(3) { // trailing
				var acc Val = intSum(int64(f(0)))
				for i := w - 1; i >= 0; i-- {
					acc = e.ite(x.b[i], intSum(int64(f(1<<i))), acc)
				}
				return []Val{acc}, true
			}
			if f(2) == f(3) { // leading or length
				var acc Val = intSum(int64(f(0)))
				for i := 0; i < w; i++ {
					acc = e.ite(x.b[i], intSum(int64(f(1<<i))), acc)
				}
				return []Val{acc}, true
			}
		}
		unsup("%v of a symbolic word", c.fn)
		return nil, false
	}
}

func strCompare(c *icall) ([]Val, bool) {
	e := c.e
	t := types.Typ[types.String]
	lt := e.binop(token.LSS, t, t, c.args[0], c.args[1], nil).(Lit)
	gt := e.binop(token.GTR, t, t, c.args[0], c.args[1], nil).(Lit)
	return []Val{e.ite(lt, intSum(-1), e.ite(gt, intSum(1), intSum(0)))}, true
}

func bitsTable(name string) intrinsicFn {
	w := 64
	base := name
	for _, s := range []struct {
		s string
		w int
	}{{"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}} {
		if strings.HasSuffix(name, s.s) {
			base, w = strings.TrimSuffix(name, s.s), s.w
		}
	}
	switch base {
	case "TrailingZeros":
		return bitFn(w, func(x uint64) int {
			if x == 0 {
				return w
			}
			return bits.TrailingZeros64(x)
		})
	case "LeadingZeros":
		return bitFn(w, func(x uint64) int { return w - bits.Len64(x) })
	case "Len":
		return bitFn(w, bits.Len64)
	case "OnesCount":
		return bitFn(w, bits.OnesCount64)
	}
	return nil
}

// standIn finds the harness function that models fn, if any.
func (p *Prog) standIn(fn *ssa.Function) *ssa.Function {
	if fn.Signature.Recv() == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "sync" {
		return nil
	}
	switch fn.String() {
	case "(*sync.Pool).Get":
		return p.pkg.Func("vPoolGet")
	case "(*sync.Pool).Put":
		return p.pkg.Func("vPoolPut")
	}
	return nil
}

// poolOp puts into or takes from the single place that a pool is modelled with.
func poolOp(put bool) intrinsicFn {
	return func(c *icall) ([]Val, bool) {
		e, st := c.e, c.st
		p, ok := e.nonNil(st, c.args[0], c.site, "pool")
		if !ok {
			return nil, false
		}
		t := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := -1
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == "local" {
				off = e.fieldOff(t, i)
			}
		}
		if off < 0 {
			unsup("layout of sync.Pool")
		}
		e.visible(st, c.site, nil, e.shared(p))
		if st.g == False {
			return nil, false
		}
		at := e.shift(p, int64(off))
		it := types.NewInterfaceType(nil, nil)
		if put {
			g := e.g.And(st.g, e.valEq(it, c.args[1], nilSum).Not())
			if g != False {
				e.store(g, at, it, c.args[1])
			}
			return nil, true
		}
		v := e.load(st.g, at, it)
		e.store(st.g, at, it, nilSum)
		return []Val{v}, true
	}
}

// makeIntrinsic finds the model of fn, or nil if its body is executed.
func (p *Prog) makeIntrinsic(fn *ssa.Function) intrinsicFn {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	pkg := ""
	if o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		pkg = ob.Pkg().Path()
	}
	recv := ""
	if r := o.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if pt, ok := t.(*types.Pointer); ok {
			t = types.Unalias(pt.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	name := o.Name()
	if recv == "" && p.isHarness(o) {
		if f, ok := harnessIntr[name]; ok {
			return f
		}
		return nil
	}
	switch {
	case pkg == "sync/atomic" && recv == "" && len(o.Blocks) == 0:
		return atomicOp(name)
	case pkg == "sync" && (recv == "Mutex" || recv == "RWMutex"):
		switch name {
		case "Lock", "RLock", "Unlock", "RUnlock", "TryLock", "TryRLock":
			return mutexOp(name)
		}
		return func(c *icall) ([]Val, bool) { unsup("%v", c.fn); return nil, false }
	case strings.HasSuffix(pkg, "/fastrand") || pkg == "math/rand" || pkg == "math/rand/v2":
		if o.Synthetic != "" && name == "init" {
			return nothing
		}
		return func(c *icall) ([]Val, bool) {
			if c.fn.Signature.Recv() != nil {
				c.args = c.args[1:]
			}
			return c.draw()
		}
	case pkg == "runtime":
		switch name {
		case "Gosched":
			return yieldOp
		case "NumCPU", "GOMAXPROCS", "NumGoroutine":
			return func(c *icall) ([]Val, bool) { return []Val{intSum(8)}, true }
		case "KeepAlive", "GC", "SetFinalizer":
			return nothing
		case "Goexit":
			return func(c *icall) ([]Val, bool) {
				e, st := c.e, c.st
				f := st.own()
				f.panicking, f.pval, f.ran = true, goexitVal, 0
				e.q.add(st)
				return nil, false
			}
		}
	case pkg == "time" && name == "Sleep":
		return yieldOp
	case pkg == "math":
		switch name {
		case "Float64bits", "Float64frombits", "Float32bits", "Float32frombits":
			return identity
		}
	case pkg == "math/bits":
		return bitsTable(name)
	case pkg == "strings" && name == "Compare" || pkg == "internal/bytealg" && name == "CompareString":
		return strCompare
	case pkg == "bytes" && name == "Compare" || pkg == "internal/bytealg" && name == "Compare":
		return bytesCompare
	case pkg == "internal/race" || pkg == "internal/runtime/sys":
		return nothing
	}
	return nil
}

var harnessIntr map[string]intrinsicFn

func lit(v Val) Lit { return v.(Lit) }

func init() {
	harnessIntr = map[string]intrinsicFn{
		"vInt": func(c *icall) ([]Val, bool) {
			return []Val{c.e.choice(c.str(0), c.int(1), c.int(2), c.st.g)}, true
		},
		"vPick": func(c *icall) ([]Val, bool) { return []Val{c.e.pick(c.str(0), c.int(1), c.st.g)}, true },
		"vBool": func(c *icall) ([]Val, bool) {
			return []Val{c.e.nondet(c.str(0), types.Typ[types.Bool], c.st.g, 0)}, true
		},
		"vNondet": func(c *icall) ([]Val, bool) {
			return []Val{c.e.nondet(c.str(0), c.res(0), c.st.g, int(c.e.strMax))}, true
		},
		"vAssume": func(c *icall) ([]Val, bool) {
			x := lit(c.args[0])
			c.e.assume(c.st.g, x)
			c.st.g = c.e.g.And(c.st.g, x)
			if !c.e.feasible(c.st.g) {
				c.st.g = False
			}
			return nil, c.st.g != False
		},
		"vAssert": func(c *icall) ([]Val, bool) {
			x := lit(c.args[0])
			g := c.e.g.And(c.st.g, x.Not())
			if g != False {
				c.e.fails = append(c.e.fails, Fail{g, c.str(1)})
			}
			c.e.nAssert++
			return nil, true
		},
		"vReach": func(c *icall) ([]Val, bool) {
			c.e.reach = append(c.e.reach, Fail{c.st.g, c.str(0)})
			return nil, true
		},
		"vCost": func(c *icall) ([]Val, bool) {
			v := c.st.cost
			if v == nil {
				v = zeroInt
			}
			c.st.cost = zeroInt
			return []Val{v}, true
		},
		"vObs": func(c *icall) ([]Val, bool) {
			e := c.e
			e.events = append(e.events, Event{g: c.st.g, thread: e.cur.id, round: e.round, kind: "obs", val: c.args[1], val2: c.args[2], info: c.str(0)})
			return nil, true
		},
		"vYield":    yieldOp,
		"vPoolTake": poolOp(false),
		"vPoolPut":  poolOp(true),
		"vAnd":      func(c *icall) ([]Val, bool) { return []Val{c.e.g.And(lit(c.args[0]), lit(c.args[1]))}, true },
		"vOr":       func(c *icall) ([]Val, bool) { return []Val{c.e.g.Or(lit(c.args[0]), lit(c.args[1]))}, true },
		"vNot":      func(c *icall) ([]Val, bool) { return []Val{lit(c.args[0]).Not()}, true },
		"vEqB":      func(c *icall) ([]Val, bool) { return []Val{c.e.g.Eq(lit(c.args[0]), lit(c.args[1]))}, true },
		"vIte": func(c *icall) ([]Val, bool) {
			return []Val{c.e.ite(lit(c.args[0]), c.args[1], c.args[2])}, true
		},
		"vParam": func(c *icall) ([]Val, bool) {
			s, ok := c.e.params[c.str(0)]
			if !ok {
				unsup("parameter %s", c.str(0))
			}
			return []Val{strSum(s)}, true
		},
		"vParamInt": func(c *icall) ([]Val, bool) {
			s, ok := c.e.params[c.str(0)]
			switch {
			case ok:
			case c.str(0) == "crowd" || c.str(0) == "ghost" || c.str(0) == "nD":
				s = "0"
			default:
				unsup("parameter %s", c.str(0))
			}
			return []Val{intSum(atoi(s))}, true
		},
		"vLevels": func(c *icall) ([]Val, bool) {
			c.e.levels = uint32(c.int(0))
			return nil, true
		},
		"vItoa": func(c *icall) ([]Val, bool) {
			s, ok := c.args[0].(*Sum)
			if !ok {
				unsup("vItoa")
			}
			var m []Ent
			for _, en := range s.e {
				m = append(m, Ent{en.g, Leaf{k: KStr, p: itoa(en.l.a)}})
			}
			return []Val{c.e.sumFrom(m)}, true
		},
		"vPar":   func(c *icall) ([]Val, bool) { return nil, c.e.par(c, false) },
		"vStall": func(c *icall) ([]Val, bool) { return nil, c.e.par(c, true) },
		"vOp":    func(c *icall) ([]Val, bool) { c.st.draws = 0; return nil, true },
		"vToken": func(c *icall) ([]Val, bool) {
			o := c.e.alloc(types.Typ[types.Int64], true, "token")
			c.e.tokens[c.int(0)] = append(c.e.tokens[c.int(0)], o.id)
			c.e.cells[o.base] = intSum(int64(c.int(0)) + 1)
			return []Val{constSum(ptrLeaf(o.id, 0))}, true
		},
		"vRetained": func(c *icall) ([]Val, bool) {
			return []Val{c.e.reachable(c.args[0], c.e.tokens[c.int(1)])}, true
		},
	}
}
