package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: Lit (bool), *Sum, *BV, *SymStr, *Agg, nil (undefined).
type Val interface{}

type Kind uint8

const (
	KNil Kind = iota
	KInt
	KStr
	KPtr
	KFunc
	KIface
	KSlice
	KMutex
)

// Leaf is a concrete value.
type Leaf struct {
	k          Kind
	a, b, c, d int64
	p          interface{}
}

type Ent struct {
	g Lit
	l Leaf
}

// Sum is a guarded union of concrete values with mutually exclusive guards.
type Sum struct{ e []Ent }

// BV is a symbolic word, least significant bit first.
type BV struct{ b []Lit }

const maxStr = 40

// lenBits is enough for the length of a symbolic string.
const lenBits = 6

// SymStr is a symbolic string of at most maxStr bytes; bytes beyond its length are zero.
type SymStr struct {
	n  []Lit // lenBits bits
	by [maxStr][]Lit
}

// Agg is a struct, array or tuple value.
type Agg struct{ e []Val }

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type Iface struct {
	t types.Type
	v Val
}

func constSum(l Leaf) *Sum      { return &Sum{[]Ent{{True, l}}} }
func intLeaf(v int64) Leaf      { return Leaf{k: KInt, a: v} }
func intSum(v int64) *Sum       { return constSum(intLeaf(v)) }
func strSum(s string) *Sum      { return constSum(Leaf{k: KStr, p: s}) }
func ptrLeaf(obj, off int) Leaf { return Leaf{k: KPtr, a: int64(obj), b: int64(off)} }
func (s *Sum) single() (Leaf, bool) {
	if len(s.e) == 1 {
		return s.e[0].l, true
	}
	return Leaf{}, false
}

var nilSum = constSum(Leaf{k: KNil})

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- type classification ----

type class uint8

const (
	cBool class = iota
	cInt
	cFloat
	cString
	cRef // pointer, func, interface, slice, map, chan
	cAgg
	cMutex
)

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func isMutex(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

func classOf(t types.Type) class {
	if isMutex(t) {
		return cMutex
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return cRef
		case i&types.IsBoolean != 0:
			return cBool
		case i&types.IsInteger != 0:
			return cInt
		case i&types.IsFloat != 0:
			return cFloat
		case i&types.IsString != 0:
			return cString
		}
		unsup("basic type %v", t)
	case *types.Struct, *types.Array, *types.Tuple:
		return cAgg
	}
	return cRef
}

func bitsOf(t types.Type) (w int, signed bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float32:
		return 32, false
	case types.Float64, types.UntypedFloat:
		return 64, false
	}
	unsup("bits of %v", t)
	return 0, false
}

// norm wraps v to the width of t and returns its canonical int64 form.
func norm(v int64, w int, signed bool) int64 {
	if w == 64 {
		return v
	}
	m := int64(1)<<w - 1
	v &= m
	if signed && v>>(w-1)&1 == 1 {
		v |= ^m
	}
	return v
}

func (e *Eng) sizeOf(t types.Type) int {
	switch classOf(t) {
	case cAgg:
		if n, ok := e.sizes[t]; ok {
			return n
		}
		n := 0
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				n += e.sizeOf(u.Field(i).Type())
			}
		case *types.Array:
			n = int(u.Len()) * e.sizeOf(u.Elem())
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				n += e.sizeOf(u.At(i).Type())
			}
		}
		e.sizes[t] = n
		return n
	}
	return 1
}

func (e *Eng) fieldOff(st *types.Struct, idx int) int {
	n := 0
	for i := 0; i < idx; i++ {
		n += e.sizeOf(st.Field(i).Type())
	}
	return n
}

func (e *Eng) zero(t types.Type) Val {
	switch classOf(t) {
	case cBool:
		return False
	case cInt, cFloat:
		return zeroInt
	case cString:
		return emptyStr
	case cMutex:
		return constSum(Leaf{k: KMutex})
	case cAgg:
		var out []Val
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, e.zero(u.Field(i).Type()))
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				out = append(out, e.zero(u.Elem()))
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				out = append(out, e.zero(u.At(i).Type()))
			}
		}
		return &Agg{out}
	}
	return nilSum
}

var zeroInt = intSum(0)
var emptyStr = strSum("")

func (e *Eng) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch classOf(t) {
	case cBool:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case cInt:
		w, s := bitsOf(t)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return intSum(norm(i, w, s))
		}
		u, _ := constant.Uint64Val(v)
		return intSum(norm(int64(u), w, s))
	case cFloat:
		w, _ := bitsOf(t)
		if w == 32 {
			f, _ := constant.Float32Val(c.Value)
			return intSum(int64(math.Float32bits(f)))
		}
		f, _ := constant.Float64Val(c.Value)
		return intSum(int64(math.Float64bits(f)))
	case cString:
		return strSum(constant.StringVal(c.Value))
	}
	unsup("constant %v", c)
	return nil
}

// ---- guarded unions ----

func (e *Eng) toBV(v Val, w int) *BV {
	switch x := v.(type) {
	case *BV:
		return x
	case *Sum:
		b := make([]Lit, w)
		if l, ok := x.single(); ok {
			for i := range b {
				if uint64(l.a)>>i&1 == 1 {
					b[i] = True
				}
			}
			return &BV{b}
		}
		for _, en := range x.e {
			for i := range b {
				if uint64(en.l.a)>>i&1 == 1 {
					b[i] = e.g.Or(b[i], en.g)
				}
			}
		}
		return &BV{b}
	}
	unsup("toBV %T", v)
	return nil
}

func (e *Eng) toStr(v Val) *SymStr {
	switch x := v.(type) {
	case *SymStr:
		return x
	case *Sum:
		r := &SymStr{n: make([]Lit, lenBits)}
		for i := range r.by {
			r.by[i] = make([]Lit, 8)
		}
		for _, en := range x.e {
			s := en.l.p.(string)
			if len(s) > maxStr {
				unsup("string constant %q longer than the symbolic bound", s)
			}
			g := en.g
			if len(x.e) == 1 {
				g = True
			}
			for b := 0; b < lenBits; b++ {
				if len(s)>>b&1 == 1 {
					r.n[b] = e.g.Or(r.n[b], g)
				}
			}
			for i := 0; i < len(s); i++ {
				for b := 0; b < 8; b++ {
					if s[i]>>b&1 == 1 {
						r.by[i][b] = e.g.Or(r.by[i][b], g)
					}
				}
			}
		}
		return r
	}
	unsup("toStr %T", v)
	return nil
}

const maxSum = 96

// ite merges two values of one type.
func (e *Eng) ite(c Lit, a, b Val) Val {
	if c == True || b == nil {
		return a
	}
	if c == False || a == nil {
		return b
	}
	switch x := a.(type) {
	case Lit:
		return e.g.Ite(c, x, b.(Lit))
	case *Agg:
		y := b.(*Agg)
		if x == y {
			return x
		}
		out := make([]Val, len(x.e))
		same := true
		for i := range out {
			out[i] = e.ite(c, x.e[i], y.e[i])
			if out[i] != x.e[i] {
				same = false
			}
		}
		if same {
			return x
		}
		return &Agg{out}
	case *SymStr:
		y := e.toStr(b)
		if x == y {
			return x
		}
		return e.iteStr(c, x, y)
	case *BV:
		y := e.toBV(b, len(x.b))
		if x == y {
			return x
		}
		return e.iteBV(c, x, y)
	case *Sum:
		switch y := b.(type) {
		case *BV:
			return e.iteBV(c, e.toBV(x, len(y.b)), y)
		case *SymStr:
			return e.iteStr(c, e.toStr(x), y)
		case *Sum:
			return e.iteSum(c, x, y)
		}
	}
	unsup("ite %T %T", a, b)
	return nil
}

func (e *Eng) iteBV(c Lit, x, y *BV) *BV {
	out := make([]Lit, len(x.b))
	for i := range out {
		out[i] = e.g.Ite(c, x.b[i], y.b[i])
	}
	return &BV{out}
}

func (e *Eng) iteStr(c Lit, x, y *SymStr) *SymStr {
	r := &SymStr{n: make([]Lit, lenBits)}
	for i := range r.n {
		r.n[i] = e.g.Ite(c, x.n[i], y.n[i])
	}
	for i := range r.by {
		r.by[i] = make([]Lit, 8)
		for b := range r.by[i] {
			r.by[i][b] = e.g.Ite(c, x.by[i][b], y.by[i][b])
		}
	}
	return r
}

func (e *Eng) iteSum(c Lit, x, y *Sum) Val {
	if x == y {
		return x
	}
	if lx, ok := x.single(); ok {
		if ly, ok := y.single(); ok && lx == ly {
			if x.e[0].g == True {
				return x
			}
			if y.e[0].g == True {
				return y
			}
			return constSum(lx)
		}
	}
	out := make([]Ent, 0, len(x.e)+len(y.e))
	used := make([]bool, len(y.e))
	same := len(x.e) == len(y.e)
	for _, ex := range x.e {
		found := false
		for j, ey := range y.e {
			if ey.l == ex.l {
				used[j] = true
				found = true
				g := e.g.Ite(c, ex.g, ey.g)
				if g != ex.g {
					same = false
				}
				if g != False {
					out = append(out, Ent{g, ex.l})
				}
				break
			}
		}
		if !found {
			same = false
			if g := e.g.And(c, ex.g); g != False {
				out = append(out, Ent{g, ex.l})
			}
		}
	}
	if same {
		return x
	}
	for j, ey := range y.e {
		if !used[j] {
			if g := e.g.And(c.Not(), ey.g); g != False {
				out = append(out, Ent{g, ey.l})
			}
		}
	}
	if len(out) == 0 {
		return y
	}
	return e.capSum(&Sum{out})
}

func (e *Eng) capSum(s *Sum) Val {
	if len(s.e) > maxSum {
		k := s.e[0].l.k
		if k == KInt {
			for _, en := range s.e {
				if en.l.k != KInt {
					return s
				}
			}
			return e.toBV(s, 64) // width is cut by users
		}
	}
	return s
}

// restrict drops union entries that cannot occur under g.
func (e *Eng) restrict(v Val, g Lit) Val {
	s, ok := v.(*Sum)
	if !ok || len(s.e) <= 1 {
		return v
	}
	var keep []Ent
	for i, en := range s.e {
		x := e.g.And(g, en.g)
		if x == False || (e.prune && !e.feasible(x)) {
			if keep == nil {
				keep = append(make([]Ent, 0, len(s.e)), s.e[:i]...)
			}
			continue
		}
		if keep != nil {
			keep = append(keep, en)
		}
	}
	if keep == nil {
		return v
	}
	if len(keep) == 1 {
		return constSum(keep[0].l)
	}
	if len(keep) == 0 {
		return v
	}
	return &Sum{keep}
}

func (e *Eng) sumFrom(m []Ent) Val {
	// combine equal leaves
	out := make([]Ent, 0, len(m))
	idx := make(map[Leaf]int, len(m))
	for _, en := range m {
		if en.g == False {
			continue
		}
		if j, ok := idx[en.l]; ok {
			out[j].g = e.g.Or(out[j].g, en.g)
			continue
		}
		idx[en.l] = len(out)
		out = append(out, en)
	}
	if len(out) == 0 {
		return nil
	}
	return e.capSum(&Sum{out})
}

func (l Leaf) String() string {
	switch l.k {
	case KNil:
		return "nil"
	case KInt:
		return fmt.Sprint(l.a)
	case KStr:
		return fmt.Sprintf("%q", l.p)
	case KPtr:
		return fmt.Sprintf("&o%d+%d", l.a, l.b)
	case KFunc:
		return fmt.Sprintf("fn:%v", l.p.(*Closure).fn.Name())
	case KIface:
		return fmt.Sprintf("iface(%v)", l.p.(*Iface).t)
	case KSlice:
		return fmt.Sprintf("slice(o%d+%d,%d/%d)", l.a, l.b, l.c, l.d)
	case KMutex:
		return fmt.Sprintf("mutex(%d)", l.a)
	}
	return "?"
}

func (e *Eng) show(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<undef>"
	case Lit:
		if x == True {
			return "true"
		}
		if x == False {
			return "false"
		}
		return fmt.Sprintf("b%d", x)
	case *Sum:
		var p []string
		for _, en := range x.e {
			if en.g == True {
				p = append(p, en.l.String())
			} else {
				p = append(p, fmt.Sprintf("%v@%d", en.l, en.g))
			}
		}
		sort.Strings(p)
		return "{" + strings.Join(p, " ") + "}"
	case *BV:
		return fmt.Sprintf("bv%d", len(x.b))
	case *SymStr:
		return "symstr"
	case *Agg:
		var p []string
		for _, y := range x.e {
			p = append(p, e.show(y))
		}
		return "<" + strings.Join(p, ",") + ">"
	}
	return "?"
}
