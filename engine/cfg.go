package main

import (
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// loopInfo is one strongly connected region of a CFG.
type loopInfo struct {
	id      int
	header  int
	members map[int]bool
}

type posStep struct {
	ord  int
	loop int // loop id or -1
}

// FuncInfo caches CFG structure of one function.
type FuncInfo struct {
	fn      *ssa.Function
	regs    map[ssa.Value]int
	nregs   int
	loops   []*loopInfo
	path    [][]posStep // per block
	live    [][]bool    // per block: registers live at entry (after phis)
	liveC   map[[2]int][]bool
	prog    map[int]bool
	id      int32
	kindSet atomic.Bool
	harness bool
}

// funcInfo0 is funcInfo for functions that may have no body.
func funcInfo0(fn *ssa.Function) *FuncInfo { return funcInfo(fn) }

var (
	fiMu    sync.Mutex
	fiCache = map[*ssa.Function]*FuncInfo{}
	fiEmpty = map[*ssa.Function]*FuncInfo{}
)

func funcInfo(fn *ssa.Function) *FuncInfo {
	fiMu.Lock()
	defer fiMu.Unlock()
	if fi, ok := fiCache[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, regs: map[ssa.Value]int{}, id: int32(len(fiCache))}
	if len(fn.Blocks) == 0 {
		k := fi
		k.id = -1
		if o, ok := fiEmpty[fn]; ok {
			return o
		}
		fiEmpty[fn] = k
		return k
	}
	add := func(v ssa.Value) {
		fi.regs[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.path = make([][]posStep, len(fn.Blocks))
	all := map[int]bool{}
	for _, b := range fn.Blocks {
		all[b.Index] = true
	}
	fi.decompose(all, -1)
	fi.liveness()
	fiCache[fn] = fi
	return fi
}

// decompose orders the blocks of set; header>=0: edges to header are back edges.
func (fi *FuncInfo) decompose(set map[int]bool, header int) {
	// Tarjan
	index, low := map[int]int{}, map[int]int{}
	on := map[int]bool{}
	var st []int
	n := 0
	var comps [][]int
	var visit func(v int)
	succs := func(v int) []int {
		var out []int
		for _, s := range fi.fn.Blocks[v].Succs {
			if set[s.Index] && s.Index != header {
				out = append(out, s.Index)
			}
		}
		return out
	}
	visit = func(v int) {
		index[v], low[v] = n, n
		n++
		st = append(st, v)
		on[v] = true
		for _, w := range succs(v) {
			if _, ok := index[w]; !ok {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && index[w] < low[v] {
				low[v] = index[w]
			}
		}
		if low[v] == index[v] {
			var c []int
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			comps = append(comps, c)
		}
	}
	var order []int
	if header >= 0 {
		order = append(order, header)
	}
	for i := range fi.fn.Blocks {
		if set[i] && i != header {
			order = append(order, i)
		}
	}
	for _, v := range order {
		if _, ok := index[v]; !ok {
			visit(v)
		}
	}
	// comps are in reverse topological order
	for i, c := range comps {
		ord := len(comps) - 1 - i
		self := false
		if len(c) == 1 {
			for _, s := range succs(c[0]) {
				if s == c[0] {
					self = true
				}
			}
		}
		if len(c) == 1 && !self {
			fi.path[c[0]] = append(fi.path[c[0]], posStep{ord, -1})
			continue
		}
		m := map[int]bool{}
		for _, v := range c {
			m[v] = true
		}
		h := -1
		for _, v := range c {
			for _, p := range fi.fn.Blocks[v].Preds {
				if !m[p.Index] {
					if h >= 0 && h != v {
						unsup("irreducible control flow in %v", fi.fn)
					}
					h = v
				}
			}
			if v == 0 && h < 0 {
				h = 0
			}
		}
		if h < 0 {
			h = c[0] // unreachable loop
		}
		l := &loopInfo{id: len(fi.loops), header: h, members: m}
		fi.loops = append(fi.loops, l)
		for _, v := range c {
			fi.path[v] = append(fi.path[v], posStep{ord, l.id})
		}
		fi.decompose(m, h)
	}
}

func (fi *FuncInfo) liveness() {
	nb := len(fi.fn.Blocks)
	use := make([][]bool, nb)
	def := make([][]bool, nb)
	phiUse := make([]map[int][]int, nb) // block -> pred block -> regs
	var ops [8]*ssa.Value
	for _, b := range fi.fn.Blocks {
		u, d := make([]bool, fi.nregs), make([]bool, fi.nregs)
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for i, ed := range ph.Edges {
					if r, ok := fi.regs[ed]; ok {
						if phiUse[b.Preds[i].Index] == nil {
							phiUse[b.Preds[i].Index] = map[int][]int{}
						}
						phiUse[b.Preds[i].Index][b.Index] = append(phiUse[b.Preds[i].Index][b.Index], r)
					}
				}
				// phi results are written on the edge: live at entry if used later
				continue
			}
			for _, o := range in.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				if r, ok := fi.regs[*o]; ok && !d[r] {
					u[r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[fi.regs[v]] = true
			}
		}
		use[b.Index], def[b.Index] = u, d
	}
	fi.live = make([][]bool, nb)
	for i := range fi.live {
		fi.live[i] = make([]bool, fi.nregs)
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			out := make([]bool, fi.nregs)
			for _, s := range b.Succs {
				phis := map[int]bool{}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[fi.regs[ph]] = true
				}
				for r, l := range fi.live[s.Index] {
					if l && !phis[r] {
						out[r] = true
					}
				}
				for _, r := range phiUse[i][s.Index] {
					out[r] = true
				}
			}
			for r := range out {
				l := use[i][r] || (out[r] && !def[i][r])
				if l && !fi.live[i][r] {
					fi.live[i][r] = true
					changed = true
				}
			}
		}
	}
}

// liveAt gives the registers live before instruction idx of block b.
func (fi *FuncInfo) liveAt(b, idx int) []bool {
	k := [2]int{b, idx}
	liveMu.Lock()
	defer liveMu.Unlock()
	if l, ok := fi.liveC[k]; ok {
		return l
	}
	blk := fi.fn.Blocks[b]
	out := make([]bool, fi.nregs)
	for _, s := range blk.Succs {
		phis := map[int]bool{}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[fi.regs[ph]] = true
		}
		for r, l := range fi.live[s.Index] {
			if l && !phis[r] {
				out[r] = true
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range s.Preds {
				if p == blk {
					if r, ok := fi.regs[ph.Edges[i]]; ok {
						out[r] = true
					}
				}
			}
		}
	}
	var ops [8]*ssa.Value
	for i := len(blk.Instrs) - 1; i >= idx; i-- {
		in := blk.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			out[fi.regs[v]] = false
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, o := range in.Operands(ops[:0]) {
			if o == nil || *o == nil {
				continue
			}
			if r, ok := fi.regs[*o]; ok {
				out[r] = true
			}
		}
	}
	if fi.fn.Recover != nil {
		for r, l := range fi.live[fi.fn.Recover.Index] {
			if l {
				out[r] = true
			}
		}
	}
	if fi.liveC == nil {
		fi.liveC = map[[2]int][]bool{}
	}
	fi.liveC[k] = out
	return out
}

var liveMu sync.Mutex
