package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Byte slices: conversions between strings and []byte, append and copy.

// bytesOf converts a string to a []byte.
func (e *Eng) bytesOf(st *State, v Val, heap bool, site string) Val {
	mk := func(g Lit, n int64) *Obj {
		o := e.alloc(types.NewArray(types.Typ[types.Byte], n), heap, site)
		o.g = e.g.And(st.g, g)
		return o
	}
	var m []Ent
	switch s := v.(type) {
	case *SymStr:
		o := mk(True, maxStr)
		for i, b := range s.by {
			e.writeAt(types.Typ[types.Byte], o.base+i, True, &BV{append([]Lit{}, b...)})
		}
		for n := int64(0); n <= maxStr; n++ {
			if g := e.bvEq(s.n, e.toBV(intSum(n), lenBits).b); g != False {
				m = append(m, Ent{g, Leaf{k: KSlice, a: int64(o.id), c: n, d: n}})
			}
		}
	case *Sum:
		for _, en := range s.e {
			if e.g.And(st.g, en.g) == False {
				continue
			}
			str := en.l.p.(string)
			n := int64(len(str))
			o := mk(en.g, n)
			for i := range str {
				e.writeAt(types.Typ[types.Byte], o.base+i, True, intSum(int64(str[i])))
			}
			m = append(m, Ent{en.g, Leaf{k: KSlice, a: int64(o.id), c: n, d: n}})
		}
	default:
		unsup("[]byte of %T", v)
	}
	if r := e.sumFrom(m); r != nil {
		return r
	}
	unsup("[]byte of an impossible string")
	return nil
}

// strOf converts a []byte to a string.
func (e *Eng) strOf(st *State, v Val) Val {
	s, ok := v.(*Sum)
	if !ok {
		unsup("string of %T", v)
	}
	// the lengths of one array's beginnings share their bytes
	type from struct{ obj, off int64 }
	var order []from
	lens := map[from][]Ent{}
	for _, en := range s.e {
		if e.g.And(st.g, en.g) == False {
			continue
		}
		n := int64(0)
		if en.l.k == KSlice {
			n = en.l.c
		}
		if n > maxStr {
			if e.feasible(e.g.And(st.g, en.g)) {
				unsup("string of %d bytes", n)
			}
			continue
		}
		k := from{en.l.a, en.l.b}
		if lens[k] == nil {
			order = append(order, k)
		}
		lens[k] = append(lens[k], Ent{en.g, intLeaf(n)})
	}
	var r *SymStr
	for _, k := range order {
		x, any := &SymStr{n: make([]Lit, lenBits)}, False
		for i := range x.by {
			in, has := False, False
			for _, en := range lens[k] {
				if en.l.a > int64(i) {
					in, has = e.g.Or(in, en.g), True
				}
			}
			if len(lens[k]) == 1 {
				in = has
			}
			x.by[i] = make([]Lit, 8)
			if has == False {
				continue
			}
			v, _ := e.readAt(types.Typ[types.Byte], e.objs[k.obj].base+int(k.off)+i)
			for j, b := range e.toBV(v, 8).b[:8] {
				x.by[i][j] = e.g.And(in, b)
			}
		}
		for _, en := range lens[k] {
			any = e.g.Or(any, en.g)
			g := en.g
			if len(lens[k]) == 1 {
				g = True
			}
			for j := range x.n {
				if en.l.a>>j&1 == 1 {
					x.n[j] = e.g.Or(x.n[j], g)
				}
			}
		}
		if r == nil {
			r = x
		} else {
			r = e.iteStr(any, x, r)
		}
	}
	if r == nil {
		return strSum("")
	}
	return r
}

// isBytes reports whether t is a slice of bytes.
func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// convBytes handles conversions that allocate or read memory.
func (e *Eng) convBytes(st *State, f *Frame, x *ssa.Convert, v Val) (Val, bool) {
	from, to := x.X.Type(), x.Type()
	switch {
	case classOf(from) == cString && isBytes(to):
		return e.bytesOf(st, v, !e.P.isHarness(f.fi.fn), e.pos(x)), true
	case isBytes(from) && classOf(to) == cString:
		return e.strOf(st, v), true
	}
	return nil, false
}

func bytesCompare(c *icall) ([]Val, bool) {
	c.args = []Val{c.e.strOf(c.st, c.args[0]), c.e.strOf(c.st, c.args[1])}
	return strCompare(c)
}

// span is one slice an operand of append or copy can be.
func (e *Eng) spans(st *State, v Val) []Ent {
	s, ok := v.(*Sum)
	if !ok {
		unsup("slice operand %T", v)
	}
	var m []Ent
	for _, en := range s.e {
		g := en.g
		if len(s.e) == 1 {
			g = True
		}
		if e.g.And(st.g, g) == False || len(s.e) > 1 && !e.feasible(e.g.And(st.g, g)) {
			continue
		}
		l := en.l
		switch l.k {
		case KNil:
			l = Leaf{k: KSlice}
		case KSlice:
		default:
			unsup("slice operand %v", l)
		}
		m = append(m, Ent{g, l})
	}
	return m
}

func (e *Eng) bAppend(st *State, f *Frame, c *ssa.CallCommon, args []Val, in ssa.Instruction) (Val, bool) {
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := e.sizeOf(el)
	heap := !e.P.isHarness(f.fi.fn)
	if classOf(c.Args[1].Type()) == cString {
		args[1] = e.bytesOf(st, args[1], heap, e.pos(in))
	}
	var m []Ent
	for _, b := range e.spans(st, args[1]) {
		add, na := b.l, b.l.c
		for _, en := range args[0].(*Sum).e {
			g := e.g.And(st.g, e.g.And(b.g, en.g))
			if g == False {
				continue
			}
			l := en.l
			if na == 0 {
				m = append(m, Ent{e.g.And(b.g, en.g), l})
				continue
			}
			if l.k == KNil {
				l = Leaf{k: KSlice}
			}
			vals := make([]Val, na)
			for i := range vals {
				vals[i], _ = e.readAt(el, e.objs[add.a].base+int(add.b)+i*es)
			}
			if l.c+na > l.d {
				nc := l.c + na
				if nc < 2*l.d {
					nc = 2 * l.d
				}
				o := e.alloc(types.NewArray(el, nc), heap, e.pos(in))
				for i := int64(0); i < l.c; i++ {
					v, _ := e.readAt(el, e.objs[l.a].base+int(l.b)+int(i)*es)
					e.writeAt(el, o.base+int(i)*es, True, v)
				}
				l.a, l.b, l.d = int64(o.id), 0, nc
			}
			for i, v := range vals {
				e.writeAt(el, e.objs[l.a].base+int(l.b)+(int(l.c)+i)*es, g, v)
			}
			l.c += na
			m = append(m, Ent{e.g.And(b.g, en.g), l})
		}
	}
	v := e.sumFrom(m)
	return v, v != nil
}

func (e *Eng) bCopy(st *State, f *Frame, c *ssa.CallCommon, args []Val, in ssa.Instruction) (Val, bool) {
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := e.sizeOf(el)
	if classOf(c.Args[1].Type()) == cString {
		args[1] = e.bytesOf(st, args[1], !e.P.isHarness(f.fi.fn), e.pos(in))
	}
	type put struct {
		at int
		g  Lit
		v  Val
	}
	var puts []put
	var m []Ent
	for _, s := range e.spans(st, args[1]) {
		for _, d := range e.spans(st, args[0]) {
			n := min(s.l.c, d.l.c)
			g := e.g.And(s.g, d.g)
			m = append(m, Ent{g, intLeaf(n)})
			for i := 0; i < int(n); i++ {
				v, _ := e.readAt(el, e.objs[s.l.a].base+int(s.l.b)+i*es)
				puts = append(puts, put{e.objs[d.l.a].base + int(d.l.b) + i*es, e.g.And(st.g, g), v})
			}
		}
	}
	for _, p := range puts {
		e.writeAt(el, p.at, p.g, p.v)
	}
	v := e.sumFrom(m)
	return v, v != nil
}
