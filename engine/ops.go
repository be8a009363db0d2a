package main

import (
	"go/token"
	"go/types"
	"math"
)

// ---- bit-vector circuits ----

func (e *Eng) bvEq(x, y []Lit) Lit {
	r := True
	for i := range x {
		r = e.g.And(r, e.g.Eq(x[i], y[i]))
	}
	return r
}

func (e *Eng) bvUlt(x, y []Lit) Lit {
	r := False
	for i := range x { // from LSB
		r = e.g.Ite(e.g.Xor(x[i], y[i]), y[i], r)
	}
	return r
}

func (e *Eng) bvLt(x, y []Lit, signed bool) Lit {
	if !signed || len(x) == 0 {
		return e.bvUlt(x, y)
	}
	n := len(x)
	xx := append(append([]Lit{}, x[:n-1]...), x[n-1].Not())
	yy := append(append([]Lit{}, y[:n-1]...), y[n-1].Not())
	return e.bvUlt(xx, yy)
}

func (e *Eng) bvAdd(x, y []Lit, cin Lit) []Lit {
	out := make([]Lit, len(x))
	c := cin
	for i := range x {
		t := e.g.Xor(x[i], y[i])
		out[i] = e.g.Xor(t, c)
		c = e.g.Or(e.g.And(x[i], y[i]), e.g.And(t, c))
	}
	return out
}

func bvNot(x []Lit) []Lit {
	out := make([]Lit, len(x))
	for i := range x {
		out[i] = x[i].Not()
	}
	return out
}

func (e *Eng) bvMul(x, y []Lit) []Lit {
	w := len(x)
	acc := make([]Lit, w)
	for i := 0; i < w; i++ {
		if y[i] == False {
			continue
		}
		row := make([]Lit, w)
		for j := 0; i+j < w; j++ {
			row[i+j] = e.g.And(x[j], y[i])
		}
		acc = e.bvAdd(acc, row, False)
	}
	return acc
}

func (e *Eng) bvShift(op token.Token, x []Lit, y []Lit, signed bool) []Lit {
	w := len(x)
	cur := append([]Lit{}, x...)
	fill := False
	if op == token.SHR && signed {
		fill = x[w-1]
	}
	big := False
	for i := range y {
		if 1<<i >= w || i > 10 {
			big = e.g.Or(big, y[i])
			continue
		}
		if y[i] == False {
			continue
		}
		nx := make([]Lit, w)
		for j := range nx {
			s := j - 1<<i
			if op == token.SHR {
				s = j + 1<<i
			}
			v := fill
			if s >= 0 && s < w {
				v = cur[s]
			} else if op == token.SHL {
				v = False
			}
			nx[j] = e.g.Ite(y[i], v, cur[j])
		}
		cur = nx
	}
	if big != False {
		for j := range cur {
			cur[j] = e.g.Ite(big, fill, cur[j])
		}
	}
	return cur
}

func (e *Eng) bvUdivrem(x, y []Lit) (q, r []Lit) {
	w := len(x)
	q = make([]Lit, w)
	r = make([]Lit, w+1)
	yy := append(append([]Lit{}, y...), False)
	for i := w - 1; i >= 0; i-- {
		r = append([]Lit{x[i]}, r[:w]...)
		ge := e.bvUlt(r, yy).Not()
		sub := e.bvAdd(r, bvNot(yy), True)
		for j := range r {
			r[j] = e.g.Ite(ge, sub[j], r[j])
		}
		q[i] = ge
	}
	return q, r[:w]
}

// ---- float predicates on IEEE bits ----

func (e *Eng) fIsNaN(x []Lit) Lit {
	m, _ := fsplit(len(x))
	ex := True
	for _, b := range x[m : len(x)-1] {
		ex = e.g.And(ex, b)
	}
	nz := False
	for _, b := range x[:m] {
		nz = e.g.Or(nz, b)
	}
	return e.g.And(ex, nz)
}

func fsplit(w int) (mant, exp int) {
	if w == 32 {
		return 23, 8
	}
	return 52, 11
}

func (e *Eng) fIsZero(x []Lit) Lit {
	r := True
	for _, b := range x[:len(x)-1] {
		r = e.g.And(r, b.Not())
	}
	return r
}

func (e *Eng) fLt(x, y []Lit) Lit {
	n := len(x)
	sx, sy := x[n-1], y[n-1]
	ok := e.g.And(e.fIsNaN(x).Not(), e.fIsNaN(y).Not())
	bothZ := e.g.And(e.fIsZero(x), e.fIsZero(y))
	mag := e.bvUlt(x[:n-1], y[:n-1])
	gam := e.bvUlt(y[:n-1], x[:n-1])
	lt := e.g.Ite(sx, e.g.Ite(sy, gam, True), e.g.Ite(sy, False, mag))
	return e.g.And(ok, e.g.And(bothZ.Not(), lt))
}

func (e *Eng) fEq(x, y []Lit) Lit {
	ok := e.g.And(e.fIsNaN(x).Not(), e.fIsNaN(y).Not())
	bothZ := e.g.And(e.fIsZero(x), e.fIsZero(y))
	return e.g.And(ok, e.g.Or(bothZ, e.bvEq(x, y)))
}

// ---- strings ----

// strBits gives a word whose unsigned order is the lexicographic order.
func (e *Eng) strBits(s *SymStr) []Lit {
	var out []Lit
	out = append(out, s.n...)
	for i := maxStr - 1; i >= 0; i-- {
		out = append(out, s.by[i]...)
	}
	return out
}

func cmpOp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func fval(bits int64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(bits)))
	}
	return math.Float64frombits(uint64(bits))
}

func fbits(f float64, w int) int64 {
	if w == 32 {
		return int64(math.Float32bits(float32(f)))
	}
	return int64(math.Float64bits(f))
}

func cmpRes(op token.Token, lt, eq bool) bool {
	switch op {
	case token.EQL:
		return eq
	case token.NEQ:
		return !eq
	case token.LSS:
		return lt
	case token.LEQ:
		return lt || eq
	case token.GTR:
		return !lt && !eq
	case token.GEQ:
		return !lt
	}
	return false
}

// binop evaluates x op y for operands of type t; divz receives the division-by-zero guard.
func (e *Eng) binop(op token.Token, t types.Type, yt types.Type, x, y Val, divz *Lit) Val {
	switch classOf(t) {
	case cBool:
		a, b := x.(Lit), y.(Lit)
		switch op {
		case token.EQL:
			return e.g.Eq(a, b)
		case token.NEQ:
			return e.g.Xor(a, b)
		case token.AND, token.LAND:
			return e.g.And(a, b)
		case token.OR, token.LOR:
			return e.g.Or(a, b)
		}
	case cInt:
		return e.intBinop(op, t, yt, x, y, divz)
	case cFloat:
		return e.floatBinop(op, t, x, y)
	case cString:
		return e.strBinop(op, x, y)
	case cRef:
		r := e.refEq(x.(*Sum), y.(*Sum))
		if op == token.NEQ {
			return r.Not()
		}
		return r
	case cAgg:
		r := e.valEq(t, x, y)
		if op == token.NEQ {
			return r.Not()
		}
		return r
	}
	unsup("binop %v on %v", op, t)
	return nil
}

func (e *Eng) valEq(t types.Type, x, y Val) Lit {
	switch classOf(t) {
	case cAgg:
		r := True
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "_" {
					continue
				}
				r = e.g.And(r, e.valEq(u.Field(i).Type(), x.(*Agg).e[i], y.(*Agg).e[i]))
			}
		case *types.Array:
			for i := 0; i < int(u.Len()); i++ {
				r = e.g.And(r, e.valEq(u.Elem(), x.(*Agg).e[i], y.(*Agg).e[i]))
			}
		}
		return r
	}
	return e.binop(token.EQL, t, t, x, y, nil).(Lit)
}

// cmpPanic is the guard under which comparing x and y, of type t, panics: interfaces of one
// dynamic type that Go cannot compare.
func (e *Eng) cmpPanic(t types.Type, x, y Val) Lit {
	r := False
	switch u := t.Underlying().(type) {
	case *types.Struct:
		same := True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			ft, a, b := u.Field(i).Type(), x.(*Agg).e[i], y.(*Agg).e[i]
			if bad := e.cmpPanic(ft, a, b); bad != False {
				r = e.g.Or(r, e.g.And(same, bad))
			}
			same = e.g.And(same, e.valEq(ft, a, b))
		}
	case *types.Array:
		if !holdsIface(u.Elem()) {
			return False
		}
		same := True
		for i := 0; i < int(u.Len()); i++ {
			a, b := x.(*Agg).e[i], y.(*Agg).e[i]
			r = e.g.Or(r, e.g.And(same, e.cmpPanic(u.Elem(), a, b)))
			same = e.g.And(same, e.valEq(u.Elem(), a, b))
		}
	case *types.Interface:
		sx, ok1 := x.(*Sum)
		sy, ok2 := y.(*Sum)
		if !ok1 || !ok2 {
			return False
		}
		for _, a := range sx.e {
			for _, b := range sy.e {
				if a.l.k != KIface || b.l.k != KIface {
					continue
				}
				ia, ib := a.l.p.(*Iface), b.l.p.(*Iface)
				if !types.Identical(ia.t, ib.t) {
					continue
				}
				g := e.g.And(a.g, b.g)
				if types.Comparable(ia.t) {
					g = e.g.And(g, e.cmpPanic(ia.t, ia.v, ib.v))
				}
				r = e.g.Or(r, g)
			}
		}
	}
	return r
}

func holdsIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Array:
		return holdsIface(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsIface(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *Eng) refEq(x, y *Sum) Lit {
	r := False
	for _, a := range x.e {
		for _, b := range y.e {
			var eq Lit
			if a.l == b.l && a.l.k != KIface {
				eq = True
			} else if a.l.k == KIface && b.l.k == KIface {
				ia, ib := a.l.p.(*Iface), b.l.p.(*Iface)
				if !types.Identical(ia.t, ib.t) {
					continue
				}
				if !types.Comparable(ia.t) {
					continue
				}
				eq = e.valEq(ia.t, ia.v, ib.v)
			} else {
				continue
			}
			r = e.g.Or(r, e.g.And(e.g.And(a.g, b.g), eq))
		}
	}
	return r
}

func (e *Eng) strBinop(op token.Token, x, y Val) Val {
	sx, ok1 := x.(*Sum)
	sy, ok2 := y.(*Sum)
	if ok1 && ok2 {
		if cmpOp(op) {
			r := False
			for _, a := range sx.e {
				for _, b := range sy.e {
					p, q := a.l.p.(string), b.l.p.(string)
					if cmpRes(op, p < q, p == q) {
						r = e.g.Or(r, e.g.And(a.g, b.g))
					}
				}
			}
			return r
		}
		if op == token.ADD {
			var m []Ent
			for _, a := range sx.e {
				for _, b := range sy.e {
					m = append(m, Ent{e.g.And(a.g, b.g), Leaf{k: KStr, p: a.l.p.(string) + b.l.p.(string)}})
				}
			}
			return e.sumFrom(m)
		}
	}
	if cmpOp(op) {
		a, b := e.strBits(e.toStr(x)), e.strBits(e.toStr(y))
		switch op {
		case token.EQL:
			return e.bvEq(a, b)
		case token.NEQ:
			return e.bvEq(a, b).Not()
		case token.LSS:
			return e.bvUlt(a, b)
		case token.GTR:
			return e.bvUlt(b, a)
		case token.LEQ:
			return e.bvUlt(b, a).Not()
		case token.GEQ:
			return e.bvUlt(a, b).Not()
		}
	}
	unsup("symbolic string operation %v", op)
	return nil
}

func (e *Eng) floatBinop(op token.Token, t types.Type, x, y Val) Val {
	w, _ := bitsOf(t)
	sx, ok1 := x.(*Sum)
	sy, ok2 := y.(*Sum)
	if ok1 && ok2 {
		if cmpOp(op) {
			r := False
			for _, a := range sx.e {
				for _, b := range sy.e {
					p, q := fval(a.l.a, w), fval(b.l.a, w)
					var v bool
					switch op {
					case token.EQL:
						v = p == q
					case token.NEQ:
						v = p != q
					case token.LSS:
						v = p < q
					case token.LEQ:
						v = p <= q
					case token.GTR:
						v = p > q
					case token.GEQ:
						v = p >= q
					}
					if v {
						r = e.g.Or(r, e.g.And(a.g, b.g))
					}
				}
			}
			return r
		}
		var m []Ent
		for _, a := range sx.e {
			for _, b := range sy.e {
				p, q := fval(a.l.a, w), fval(b.l.a, w)
				var v float64
				switch op {
				case token.ADD:
					v = p + q
				case token.SUB:
					v = p - q
				case token.MUL:
					v = p * q
				case token.QUO:
					v = p / q
				}
				m = append(m, Ent{e.g.And(a.g, b.g), intLeaf(fbits(v, w))})
			}
		}
		return e.sumFrom(m)
	}
	a, b := e.toBV(x, w).b[:w], e.toBV(y, w).b[:w]
	switch op {
	case token.EQL:
		return e.fEq(a, b)
	case token.NEQ:
		return e.fEq(a, b).Not()
	case token.LSS:
		return e.fLt(a, b)
	case token.GTR:
		return e.fLt(b, a)
	case token.LEQ:
		return e.g.Or(e.fLt(a, b), e.fEq(a, b))
	case token.GEQ:
		return e.g.Or(e.fLt(b, a), e.fEq(a, b))
	}
	unsup("symbolic float operation %v", op)
	return nil
}

func (e *Eng) intBinop(op token.Token, t, yt types.Type, x, y Val, divz *Lit) Val {
	w, signed := bitsOf(t)
	sx, ok1 := x.(*Sum)
	sy, ok2 := y.(*Sum)
	yw, ysigned := w, signed
	if op == token.SHL || op == token.SHR {
		yw, ysigned = bitsOf(yt)
	}
	if ok1 && ok2 && len(sx.e)*len(sy.e) <= 4096 {
		cmp := cmpOp(op)
		r := False
		var m []Ent
		for _, a := range sx.e {
			for _, b := range sy.e {
				g := e.g.And(a.g, b.g)
				if g == False {
					continue
				}
				p, q := a.l.a, b.l.a
				if cmp {
					lt := p < q
					if !signed {
						lt = uint64(p) < uint64(q)
					}
					if cmpRes(op, lt, p == q) {
						r = e.g.Or(r, g)
					}
					continue
				}
				var v int64
				switch op {
				case token.ADD:
					v = p + q
				case token.SUB:
					v = p - q
				case token.MUL:
					v = p * q
				case token.AND:
					v = p & q
				case token.OR:
					v = p | q
				case token.XOR:
					v = p ^ q
				case token.AND_NOT:
					v = p &^ q
				case token.SHL:
					if ysigned && q < 0 {
						if divz != nil {
							*divz = e.g.Or(*divz, g)
						}
						continue
					}
					if uint64(q) < 64 {
						v = p << uint(q)
					}
				case token.SHR:
					if ysigned && q < 0 {
						if divz != nil {
							*divz = e.g.Or(*divz, g)
						}
						continue
					}
					if signed {
						if uint64(q) > 63 {
							q = 63
						}
						v = p >> uint(q)
					} else if uint64(q) < 64 {
						v = int64(uint64(p) >> uint(q))
					}
				case token.QUO, token.REM:
					if q == 0 {
						if divz != nil {
							*divz = e.g.Or(*divz, g)
						}
						continue
					}
					if signed {
						if q == -1 {
							if op == token.QUO {
								v = -p
							}
						} else if op == token.QUO {
							v = p / q
						} else {
							v = p % q
						}
					} else if op == token.QUO {
						v = int64(uint64(p) / uint64(q))
					} else {
						v = int64(uint64(p) % uint64(q))
					}
				default:
					unsup("int op %v", op)
				}
				m = append(m, Ent{g, intLeaf(norm(v, w, signed))})
			}
		}
		if cmp {
			return r
		}
		if v := e.sumFrom(m); v != nil {
			return v
		}
		return zeroInt
	}
	a := e.toBV(x, w).b[:w]
	b := e.toBV(y, yw).b[:yw]
	switch op {
	case token.EQL:
		return e.bvEq(a, b)
	case token.NEQ:
		return e.bvEq(a, b).Not()
	case token.LSS:
		return e.bvLt(a, b, signed)
	case token.GTR:
		return e.bvLt(b, a, signed)
	case token.LEQ:
		return e.bvLt(b, a, signed).Not()
	case token.GEQ:
		return e.bvLt(a, b, signed).Not()
	case token.ADD:
		return &BV{e.bvAdd(a, b, False)}
	case token.SUB:
		return &BV{e.bvAdd(a, bvNot(b), True)}
	case token.MUL:
		return &BV{e.bvMul(a, b)}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		out := make([]Lit, w)
		for i := range out {
			switch op {
			case token.AND:
				out[i] = e.g.And(a[i], b[i])
			case token.OR:
				out[i] = e.g.Or(a[i], b[i])
			case token.XOR:
				out[i] = e.g.Xor(a[i], b[i])
			default:
				out[i] = e.g.And(a[i], b[i].Not())
			}
		}
		return &BV{out}
	case token.SHL, token.SHR:
		return &BV{e.bvShift(op, a, b, signed)}
	case token.QUO, token.REM:
		if divz != nil {
			z := True
			for _, l := range b {
				z = e.g.And(z, l.Not())
			}
			*divz = e.g.Or(*divz, z)
		}
		if signed {
			// |a| op |b| with sign repair
			na, nb := a[w-1], b[w-1]
			neg := func(v []Lit, c Lit) []Lit {
				n := e.bvAdd(bvNot(v), make([]Lit, w), True)
				out := make([]Lit, w)
				for i := range out {
					out[i] = e.g.Ite(c, n[i], v[i])
				}
				return out
			}
			q, r := e.bvUdivrem(neg(a, na), neg(b, nb))
			if op == token.QUO {
				return &BV{neg(q, e.g.Xor(na, nb))}
			}
			return &BV{neg(r, na)}
		}
		q, r := e.bvUdivrem(a, b)
		if op == token.QUO {
			return &BV{q}
		}
		return &BV{r}
	}
	unsup("bv op %v", op)
	return nil
}

// convert implements numeric, string and pointer conversions.
func (e *Eng) convert(v Val, from, to types.Type) Val {
	cf, ct := classOf(from), classOf(to)
	switch {
	case ct == cRef && cf == cRef:
		_, fs := from.Underlying().(*types.Slice)
		_, ts := to.Underlying().(*types.Slice)
		if fs != ts {
			unsup("conversion %v -> %v", from, to)
		}
		return v
	case cf == cInt && ct == cInt:
		w, s := bitsOf(to)
		fw, fsg := bitsOf(from)
		switch x := v.(type) {
		case *Sum:
			var m []Ent
			for _, en := range x.e {
				m = append(m, Ent{en.g, intLeaf(norm(en.l.a, w, s))})
			}
			return e.sumFrom(m)
		case *BV:
			b := append([]Lit{}, x.b[:fw]...)
			for len(b) < w {
				if fsg {
					b = append(b, x.b[fw-1])
				} else {
					b = append(b, False)
				}
			}
			return &BV{b[:w]}
		}
	case cf == cFloat && ct == cFloat:
		fw, _ := bitsOf(from)
		tw, _ := bitsOf(to)
		if fw == tw {
			return v
		}
		switch x := v.(type) {
		case *Sum:
			var m []Ent
			for _, en := range x.e {
				m = append(m, Ent{en.g, intLeaf(fbits(fval(en.l.a, fw), tw))})
			}
			return e.sumFrom(m)
		case *BV:
			if fw == 32 {
				return &BV{e.f32to64(x.b[:32])}
			}
		}
	case cf == cInt && ct == cFloat:
		if x, ok := v.(*Sum); ok {
			w, _ := bitsOf(to)
			_, s := bitsOf(from)
			var m []Ent
			for _, en := range x.e {
				f := float64(en.l.a)
				if !s {
					f = float64(uint64(en.l.a))
				}
				m = append(m, Ent{en.g, intLeaf(fbits(f, w))})
			}
			return e.sumFrom(m)
		}
	case cf == cFloat && ct == cInt:
		if x, ok := v.(*Sum); ok {
			fw, _ := bitsOf(from)
			w, s := bitsOf(to)
			var m []Ent
			for _, en := range x.e {
				m = append(m, Ent{en.g, intLeaf(norm(int64(fval(en.l.a, fw)), w, s))})
			}
			return e.sumFrom(m)
		}
	case cf == cString && ct == cString:
		return v
	case cf == cRef && ct == cInt, cf == cInt && ct == cRef:
		unsup("pointer/integer conversion %v -> %v", from, to)
	}
	unsup("conversion %v -> %v of %T", from, to, v)
	return nil
}

// f32to64 widens a symbolic float32 exactly (normal, subnormal, zero, inf, NaN).
func (e *Eng) f32to64(x []Lit) []Lit {
	man, exp, sign := x[:23], x[23:31], x[31]
	ez, eo := True, True
	for _, b := range exp {
		ez = e.g.And(ez, b.Not())
		eo = e.g.And(eo, b)
	}
	// normal: exponent + 896
	ext := append(append([]Lit{}, exp...), False, False, False)
	c := make([]Lit, 11)
	for i := range c {
		if 896>>i&1 == 1 {
			c[i] = True
		}
	}
	nexp := e.bvAdd(ext, c, False)
	out := make([]Lit, 64)
	for i := 0; i < 23; i++ {
		out[29+i] = man[i]
	}
	oexp := make([]Lit, 11)
	for i := range oexp {
		oexp[i] = e.g.Ite(eo, True, nexp[i])
	}
	// subnormal: normalise on the leading one
	sub := make([]Lit, 52)
	sexp := make([]Lit, 11)
	seen := False
	for k := 22; k >= 0; k-- { // leading one at bit k: value = 1.f * 2^(k-149)
		here := e.g.And(man[k], seen.Not())
		seen = e.g.Or(seen, man[k])
		ev := 1023 + k - 149
		for i := range sexp {
			if ev>>i&1 == 1 {
				sexp[i] = e.g.Or(sexp[i], here)
			}
		}
		for j := 0; j < k; j++ {
			p := 52 - (k - j)
			sub[p] = e.g.Or(sub[p], e.g.And(here, man[j]))
		}
	}
	for i := 0; i < 52; i++ {
		out[i] = e.g.Ite(ez, sub[i], out[i])
	}
	for i := 0; i < 11; i++ {
		out[52+i] = e.g.Ite(ez, sexp[i], oexp[i])
	}
	out[63] = sign
	return out
}
