package main

/*
#cgo CXXFLAGS: -O2 -w
#cgo LDFLAGS: -lminisat -lstdc++
#include "minisat.h"
*/
import "C"

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Sat is an incremental solver over an AIG.
type Sat struct {
	g       *AIG
	p       unsafe.Pointer
	vars    []int32 // node -> sat var+1
	nvars   int
	slot    uint
	Calls   int64
	SimHits int64
	Time    time.Duration
	model   []byte
	stamp   []uint32 // per node: last query whose cone holds it
	base    []bool   // per node: in the cone of an asserted constraint
	epoch   uint32
	dec     []C.int
	work    []uint32
}

// decide on the cone of the assumptions only; cone variables of constraints stay decision variables.
func (s *Sat) setCone(as []Lit) {
	if len(s.dec) > 0 {
		C.ms_setdec(s.p, &s.dec[0], C.int(len(s.dec)), 0)
	}
	s.dec = s.dec[:0]
	s.epoch++
	for len(s.stamp) < len(s.g.nodes) {
		s.stamp = append(s.stamp, make([]uint32, len(s.g.nodes))...)
	}
	w := s.work[:0]
	for _, a := range as {
		w = append(w, a.node())
	}
	for len(w) > 0 {
		n := w[len(w)-1]
		w = w[:len(w)-1]
		if n == 0 || s.stamp[n] == s.epoch || (int(n) < len(s.base) && s.base[n]) {
			continue
		}
		s.stamp[n] = s.epoch
		s.dec = append(s.dec, C.int(s.vars[n]-1))
		if nd := s.g.nodes[n]; nd.a != inputMark {
			w = append(w, nd.a.node(), nd.b.node())
		}
	}
	s.work = w
	if len(s.dec) > 0 {
		C.ms_setdec(s.p, &s.dec[0], C.int(len(s.dec)), 1)
	}
}

// addBase makes the cone of a constraint permanent decision variables.
func (s *Sat) addBase(l Lit) {
	for len(s.base) < len(s.g.nodes) {
		s.base = append(s.base, make([]bool, len(s.g.nodes))...)
	}
	w := []uint32{l.node()}
	var vs []C.int
	for len(w) > 0 {
		n := w[len(w)-1]
		w = w[:len(w)-1]
		if n == 0 || s.base[n] {
			continue
		}
		s.base[n] = true
		vs = append(vs, C.int(s.vars[n]-1))
		if nd := s.g.nodes[n]; nd.a != inputMark {
			w = append(w, nd.a.node(), nd.b.node())
		}
	}
	// they may be in the current query's list: drop that list first
	if len(s.dec) > 0 {
		C.ms_setdec(s.p, &s.dec[0], C.int(len(s.dec)), 0)
		s.dec = s.dec[:0]
	}
	if len(vs) > 0 {
		C.ms_setdec(s.p, &vs[0], C.int(len(vs)), 1)
	}
}

func NewSat(g *AIG) *Sat { return &Sat{g: g, p: C.ms_new()} }
func (s *Sat) Free() {
	if s.p != nil {
		C.ms_free(s.p)
		s.p = nil
	}
}

func (s *Sat) varOf(n uint32) int32 {
	if int(n) < len(s.vars) {
		return s.vars[n]
	}
	return 0
}

func (s *Sat) newVar(n uint32) int32 {
	for len(s.vars) <= int(n) {
		s.vars = append(s.vars, make([]int32, 4096)...)
	}
	v := int32(C.ms_newvar(s.p)) + 1
	s.nvars++
	s.vars[n] = v
	return v
}

func (s *Sat) lit(l Lit) C.int {
	v := s.varOf(l.node())
	r := C.int(v-1) << 1
	if l.neg() {
		r |= 1
	}
	return r
}

func (s *Sat) encode(root Lit) {
	if root.node() == 0 || s.varOf(root.node()) != 0 {
		return
	}
	stack := []uint32{root.node()}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		if n == 0 || s.varOf(n) != 0 {
			stack = stack[:len(stack)-1]
			continue
		}
		nd := s.g.nodes[n]
		if nd.a == inputMark {
			s.newVar(n)
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, c := range [2]uint32{nd.a.node(), nd.b.node()} {
			if c != 0 && s.varOf(c) == 0 {
				stack = append(stack, c)
				ready = false
			}
		}
		if !ready {
			continue
		}
		v := s.newVar(n)
		C.ms_and(s.p, C.int(v-1)<<1, s.lit(nd.a), s.lit(nd.b))
		stack = stack[:len(stack)-1]
	}
}

// Assert adds l permanently.
func (s *Sat) Assert(l Lit) {
	if l == True {
		return
	}
	if l == False {
		v := C.ms_newvar(s.p)
		s.nvars++
		C.ms_clause1(s.p, v<<1)
		C.ms_clause1(s.p, v<<1|1)
		return
	}
	s.encode(l)
	s.addBase(l)
	C.ms_clause1(s.p, s.lit(l))
}

// Lemma adds a consequence of what is asserted.
func (s *Sat) Lemma(l Lit) {
	s.encode(l)
	C.ms_clause1(s.p, s.lit(l))
}

// Solve under assumptions: 1 sat, 0 unsat, 2 unknown (conflict budget).
func (s *Sat) Solve(confl int64, as ...Lit) int {
	var arr []C.int
	for _, a := range as {
		if a == False {
			return 0
		}
		if a == True {
			continue
		}
		s.encode(a)
		arr = append(arr, s.lit(a))
	}
	s.Calls++
	t := time.Now()
	s.setCone(as)
	var p *C.int
	if len(arr) > 0 {
		p = &arr[0]
	}
	r := int(C.ms_solve(s.p, p, C.int(len(arr)), C.longlong(confl)))
	s.Time += time.Since(t)
	if r == 1 {
		if cap(s.model) < s.nvars {
			s.model = make([]byte, s.nvars*2)
		}
		s.model = s.model[:s.nvars]
		if s.nvars > 0 {
			C.ms_copymodel(s.p, (*C.char)(unsafe.Pointer(&s.model[0])), C.int(s.nvars))
		}
	}
	return r
}

// ModelInput gives the value of an input node in the last model.
func (s *Sat) ModelInput(n uint32) bool {
	v := s.varOf(n)
	if v == 0 || int(v) > len(s.model) {
		return false
	}
	return s.model[v-1] != 0
}

// Learn copies the last model into a simulation pattern.
func (s *Sat) Learn() {
	s.g.setPattern(s.slot&63, s.ModelInput)
	s.slot++
}

// WriteDimacs writes the conjunction of roots; returns node->var.
func WriteDimacs(g *AIG, roots []Lit) ([]byte, map[uint32]int) {
	cone := g.Cone(roots...)
	vars := make(map[uint32]int, len(cone))
	for i, n := range cone {
		vars[n] = i + 1
	}
	l := func(x Lit) int {
		v := vars[x.node()]
		if x.neg() {
			return -v
		}
		return v
	}
	var body bytes.Buffer
	nc := 0
	wr := func(ls ...int) {
		for _, x := range ls {
			body.WriteString(strconv.Itoa(x))
			body.WriteByte(' ')
		}
		body.WriteString("0\n")
		nc++
	}
	for _, n := range cone {
		nd := g.nodes[n]
		if nd.a == inputMark {
			continue
		}
		v := vars[n]
		wr(-v, l(nd.a))
		wr(-v, l(nd.b))
		wr(v, -l(nd.a), -l(nd.b))
	}
	for _, r := range roots {
		if r == True {
			continue
		}
		if r == False {
			wr()
			continue
		}
		wr(l(r))
	}
	var out bytes.Buffer
	fmt.Fprintf(&out, "p cnf %d %d\n", len(cone), nc)
	out.Write(body.Bytes())
	return out.Bytes(), vars
}

// WriteSMT writes the conjunction of roots as an SMT-LIB 2 problem.
func WriteSMT(g *AIG, roots []Lit, getModel bool) []byte {
	cone := g.Cone(roots...)
	var o bytes.Buffer
	o.WriteString("(set-logic QF_BV)\n")
	l := func(x Lit) string {
		if x == True {
			return "true"
		}
		if x == False {
			return "false"
		}
		s := "n" + strconv.Itoa(int(x.node()))
		if x.neg() {
			return "(not " + s + ")"
		}
		return s
	}
	for _, n := range cone {
		nd := g.nodes[n]
		if nd.a == inputMark {
			fmt.Fprintf(&o, "(declare-const n%d Bool) ; %s\n", n, strings.ReplaceAll(g.names[n], "\n", " "))
			continue
		}
		fmt.Fprintf(&o, "(define-fun n%d () Bool (and %s %s))\n", n, l(nd.a), l(nd.b))
	}
	for _, r := range roots {
		fmt.Fprintf(&o, "(assert %s)\n", l(r))
	}
	o.WriteString("(check-sat)\n")
	return o.Bytes()
}

// RunSMT gives "sat", "unsat" or "unknown" from an external SMT solver.
func RunSMT(ctx context.Context, solver string, smt []byte) string {
	f, err := os.CreateTemp("", "vq*.smt2")
	if err != nil {
		return "unknown"
	}
	defer os.Remove(f.Name())
	f.Write(smt)
	f.Close()
	out, _ := exec.CommandContext(ctx, solver, f.Name()).CombinedOutput()
	if bytes.Contains(out, []byte("error")) {
		return "unknown"
	}
	s := strings.TrimSpace(string(out))
	if s == "sat" || s == "unsat" {
		return s
	}
	return "unknown"
}

// RunKissat decides a DIMACS problem: result 1/0/2 and the model.
func RunKissat(ctx context.Context, cnf []byte, nvars int, secs int) (int, []bool) {
	f, err := os.CreateTemp("", "vq*.cnf")
	if err != nil {
		return 2, nil
	}
	defer os.Remove(f.Name())
	f.Write(cnf)
	f.Close()
	args := []string{"-q", f.Name()}
	if secs > 0 {
		args = append([]string{fmt.Sprintf("--time=%d", secs)}, args...)
	}
	out, _ := exec.CommandContext(ctx, "kissat", args...).Output()
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	res := 2
	var model []bool
	for sc.Scan() {
		t := sc.Text()
		if strings.HasPrefix(t, "s SATISFIABLE") {
			res = 1
			model = make([]bool, nvars+1)
		} else if strings.HasPrefix(t, "s UNSATISFIABLE") {
			res = 0
		} else if strings.HasPrefix(t, "v ") && model != nil {
			for _, x := range strings.Fields(t[2:]) {
				v, _ := strconv.Atoi(x)
				if v > 0 {
					model[v] = true
				}
			}
		}
	}
	return res, model
}
