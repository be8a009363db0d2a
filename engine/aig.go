package main

import "math/rand"

// Lit is a literal of the and-inverter graph: node<<1 | negated.
// Node 0 is the constant; literal 0 is FALSE and literal 1 is TRUE.
type Lit uint32

const (
	False Lit = 0
	True  Lit = 1
)

func (l Lit) Not() Lit     { return l ^ 1 }
func (l Lit) node() uint32 { return uint32(l >> 1) }
func (l Lit) neg() bool    { return l&1 == 1 }

const inputMark = ^Lit(0)

type aigNode struct{ a, b Lit } // a==inputMark: input

// AIG is a structurally hashed and-inverter graph with 64 simulation patterns.
type AIG struct {
	nodes  []aigNode
	sim    []uint64
	hash   map[[2]Lit]Lit
	inputs []uint32
	names  map[uint32]string
	rng    *rand.Rand
}

func NewAIG(seed int64) *AIG {
	g := &AIG{hash: map[[2]Lit]Lit{}, names: map[uint32]string{}, rng: rand.New(rand.NewSource(seed))}
	g.nodes = append(g.nodes, aigNode{})
	g.sim = append(g.sim, 0)
	return g
}

// Input makes a fresh Boolean variable.
func (g *AIG) Input(name string) Lit {
	n := uint32(len(g.nodes))
	g.nodes = append(g.nodes, aigNode{inputMark, 0})
	g.sim = append(g.sim, g.rng.Uint64())
	g.inputs = append(g.inputs, n)
	g.names[n] = name
	return Lit(n << 1)
}

func (g *AIG) SimOf(l Lit) uint64 {
	s := g.sim[l.node()]
	if l.neg() {
		return ^s
	}
	return s
}

func (g *AIG) isAnd(l Lit) bool { n := l.node(); return n != 0 && g.nodes[n].a != inputMark }

// And with one- and two-level simplification.
func (g *AIG) And(a, b Lit) Lit {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == False:
		return False
	case a == True:
		return b
	case a == b:
		return a
	case a == b.Not():
		return False
	}
	// two-level rules
	if g.isAnd(a) {
		n := g.nodes[a.node()]
		if !a.neg() {
			if n.a == b || n.b == b {
				return a
			}
			if n.a == b.Not() || n.b == b.Not() {
				return False
			}
		} else {
			if n.a == b.Not() || n.b == b.Not() {
				return b
			}
			if n.a == b {
				return g.And(b, n.b.Not())
			}
			if n.b == b {
				return g.And(b, n.a.Not())
			}
		}
	}
	if g.isAnd(b) {
		n := g.nodes[b.node()]
		if !b.neg() {
			if n.a == a || n.b == a {
				return b
			}
			if n.a == a.Not() || n.b == a.Not() {
				return False
			}
		} else {
			if n.a == a.Not() || n.b == a.Not() {
				return a
			}
			if n.a == a {
				return g.And(a, n.b.Not())
			}
			if n.b == a {
				return g.And(a, n.a.Not())
			}
		}
	}
	if g.isAnd(a) && g.isAnd(b) {
		x, y := g.nodes[a.node()], g.nodes[b.node()]
		if !a.neg() && !b.neg() {
			if x.a == y.a.Not() || x.a == y.b.Not() || x.b == y.a.Not() || x.b == y.b.Not() {
				return False
			}
		}
		if a.neg() && b.neg() {
			// ~(p&q) & ~(p&~q) = ~p
			if x.a == y.a && x.b == y.b.Not() || x.a == y.b && x.b == y.a.Not() {
				return x.a.Not()
			}
			if x.b == y.b && x.a == y.a.Not() || x.b == y.a && x.a == y.b.Not() {
				return x.b.Not()
			}
		}
		if a.neg() != b.neg() {
			// p&q and ~(r&s) with r==~p or so: the negative one is implied
			if x.a == y.a.Not() || x.a == y.b.Not() || x.b == y.a.Not() || x.b == y.b.Not() {
				if a.neg() {
					return b
				}
				return a
			}
		}
	}
	k := [2]Lit{a, b}
	if l, ok := g.hash[k]; ok {
		return l
	}
	n := uint32(len(g.nodes))
	g.nodes = append(g.nodes, aigNode{a, b})
	g.sim = append(g.sim, g.SimOf(a)&g.SimOf(b))
	l := Lit(n << 1)
	g.hash[k] = l
	return l
}

func (g *AIG) Or(a, b Lit) Lit { return g.And(a.Not(), b.Not()).Not() }
func (g *AIG) Ite(c, t, e Lit) Lit {
	switch {
	case c == True || t == e:
		return t
	case c == False:
		return e
	case t == True:
		return g.Or(c, e)
	case t == False:
		return g.And(c.Not(), e)
	case e == True:
		return g.Or(c.Not(), t)
	case e == False:
		return g.And(c, t)
	}
	return g.Or(g.And(c, t), g.And(c.Not(), e))
}
func (g *AIG) Xor(a, b Lit) Lit {
	if a == False {
		return b
	}
	if a == True {
		return b.Not()
	}
	if b == False {
		return a
	}
	if b == True {
		return a.Not()
	}
	if a == b {
		return False
	}
	if a == b.Not() {
		return True
	}
	return g.Or(g.And(a, b.Not()), g.And(a.Not(), b))
}
func (g *AIG) Eq(a, b Lit) Lit { return g.Xor(a, b).Not() }

// setPattern overwrites simulation pattern slot i with an input assignment.
func (g *AIG) setPattern(slot uint, val func(node uint32) bool) {
	m := uint64(1) << slot
	for n := 1; n < len(g.nodes); n++ {
		nd := g.nodes[n]
		var v bool
		if nd.a == inputMark {
			v = val(uint32(n))
		} else {
			v = g.SimOf(nd.a)&g.SimOf(nd.b)&m != 0
		}
		if v {
			g.sim[n] |= m
		} else {
			g.sim[n] &^= m
		}
	}
}

// Eval computes the value of every node under an input assignment.
func (g *AIG) EvalAll(val func(node uint32) bool) []bool {
	out := make([]bool, len(g.nodes))
	ev := func(l Lit) bool { return out[l.node()] != l.neg() }
	for n := 1; n < len(g.nodes); n++ {
		nd := g.nodes[n]
		if nd.a == inputMark {
			out[n] = val(uint32(n))
		} else {
			out[n] = ev(nd.a) && ev(nd.b)
		}
	}
	return out
}

// Cone lists the nodes in the transitive fan-in of the roots, children first.
func (g *AIG) Cone(roots ...Lit) []uint32 {
	seen := make(map[uint32]bool)
	var out []uint32
	var stack []uint32
	for _, r := range roots {
		stack = append(stack, r.node())
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		if seen[n] || n == 0 {
			stack = stack[:len(stack)-1]
			if n == 0 {
				continue
			}
			continue
		}
		nd := g.nodes[n]
		if nd.a == inputMark {
			seen[n] = true
			out = append(out, n)
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, c := range [2]uint32{nd.a.node(), nd.b.node()} {
			if c != 0 && !seen[c] {
				stack = append(stack, c)
				ready = false
			}
		}
		if ready {
			seen[n] = true
			out = append(out, n)
			stack = stack[:len(stack)-1]
		}
	}
	return out
}
