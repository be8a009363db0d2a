package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Job struct {
	Entry     string
	Params    map[string]string
	Secs      int
	Race      bool
	Kinds     map[string]bool // failure classes that count: assert, panic, deadlock, livelock, race, blocked
	Verbose   bool
	Wide      bool
	StrMax    int
	Samples   int // concrete runs to predict, for comparison with the compiled code
	CrossSecs int
	Cross     bool  // confirm the answers of the solver with other solvers
	Seed      int64 // for the choice of samples
}

type Cex struct {
	Kind, Label string
	Inputs      map[string]interface{}
	Draws       map[int][]int64
	Sched       []SegRun
	Obs         []string // predicted results, in the order of the symbolic execution
}

type SegRun struct {
	Thread, Round, Vis int
	Plain              string `json:",omitempty"` // the place of the plain store before which the segment ends
}

type Result struct {
	Job                  *Job
	Verdict              string // pass, cex, inconclusive
	Why                  string
	Cex                  []*Cex
	Nodes, Inputs        int
	Instrs, Paths, Vis   int64
	SatCalls, SimHits    int64
	SatTime              time.Duration
	ExecTime, DecideTime time.Duration
	Asserts              int
	Notes                []string
	Funcs                map[string]int
	Stubs                map[string]int
	Queries              int
	Samples              []*Cex
	Cross                map[string]int
	Bounds               []string // loops that reached the unrolling limit
	Wall                 time.Duration
}

func runJob(p *Prog, j *Job) (r *Result) {
	r = &Result{Job: j, Funcs: map[string]int{}, Stubs: map[string]int{}}
	e := NewEng(p)
	defer e.sat.Free()
	e.params = j.Params
	e.deadline = time.Now().Add(time.Duration(j.Secs) * time.Second)
	e.raceMode = j.Race
	e.wideDraws = j.Wide
	if n, _ := strconv.Atoi(j.Params["crowd"]); n > 0 {
		e.progMax = int32(200 + 4*n)
	}
	e.strMax = 20
	if j.StrMax > 0 {
		e.strMax = j.StrMax
	}
	t0 := time.Now()
	if j.Verbose {
		var n [3]int
		var tt [3]time.Duration
		e.trace2 = func(r int, d time.Duration) { n[r]++; tt[r] += d }
		defer func() {
			r.Notes = append(r.Notes, fmt.Sprintf("feasible: unsat %d %v sat %d %v unknown %d %v", n[0], tt[0], n[1], tt[1], n[2], tt[2]))
		}()
	}
	defer func() {
		if x := recover(); x != nil {
			r.Verdict = "inconclusive"
			switch y := x.(type) {
			case unsupported:
				r.Why = "unsupported: " + y.msg
			case timeoutErr:
				r.Why = "time limit"
			default:
				r.Why = fmt.Sprintf("internal error: %v", x)
				if j.Verbose {
					debug.PrintStack()
				}
			}
			r.Notes = append(r.Notes, r.Why)
		}
		r.Nodes, r.Inputs, r.Instrs, r.Paths, r.Vis = len(e.g.nodes), len(e.g.inputs), e.instrs, e.paths, e.visOps
		r.SatCalls, r.SimHits, r.SatTime = e.sat.Calls, e.sat.SimHits, e.sat.Time
		r.Asserts = e.nAssert
		for f, n := range e.funcsRun {
			name := f.String()
			if p.isHarness(f) {
				name = "harness:" + name
			}
			r.Funcs[name] += n
		}
		for f, n := range e.stubs {
			r.Stubs[f] += n
		}
	}()
	fn := p.pkg.Func(j.Entry)
	if fn == nil {
		unsup("no harness %s", j.Entry)
	}
	e.run(fn)
	r.ExecTime = time.Since(t0)
	t1 := time.Now()
	type goal struct {
		kind, label string
		g           Lit
	}
	var gs []goal
	for _, f := range e.fails {
		k := "assert"
		if len(f.label) > 8 && f.label[:8] == "deadlock" {
			k = "deadlock"
		}
		if len(f.label) > 7 && f.label[:7] == "blocked" {
			k = "blocked"
		}
		gs = append(gs, goal{k, f.label, f.g})
	}
	for _, c := range e.crashes {
		gs = append(gs, goal{"panic", c.msg, c.g})
	}
	for _, c := range e.cuts {
		if isSolo(c) {
			gs = append(gs, goal{"livelock", c.label, c.g})
		}
	}
	for k, g := range e.races {
		gs = append(gs, goal{"race", k, g})
	}
	sort.SliceStable(gs, func(a, b int) bool { return gs[a].kind+gs[a].label < gs[b].kind+gs[b].label })
	bound := map[string]bool{}
	for _, c := range e.cuts {
		if !isSolo(c) {
			bound[c.label] = true
		}
	}
	for l := range bound {
		r.Notes = append(r.Notes, l)
		r.Bounds = append(r.Bounds, l)
	}
	sort.Strings(r.Bounds)
	r.Verdict = "pass"
	vac := true
	end := False
	for _, w := range e.reach {
		if w.label == "end" && e.feasible(w.g) {
			vac = false
			end = e.g.Or(end, w.g)
		}
	}
	if vac {
		r.Notes = append(r.Notes, "VACUOUS: the harness end is not reached")
	}
	for _, gl := range gs {
		if j.Kinds != nil && !j.Kinds[gl.kind] {
			continue
		}
		r.Queries++
		res, model := e.decide(gl.g)
		switch res {
		case 0:
		case 1:
			r.Verdict = "cex"
			r.Notes = append(r.Notes, "CEX "+gl.kind+": "+gl.label)
			r.Cex = append(r.Cex, e.extract(gl.kind, gl.label, model))
			if j.Verbose {
				r.Notes = append(r.Notes, fmt.Sprintf("%+v", *r.Cex[len(r.Cex)-1]))
			}
		default:
			if r.Verdict == "pass" {
				r.Verdict = "inconclusive"
			}
			r.Why = "solver limit on " + gl.kind + ": " + gl.label
			r.Notes = append(r.Notes, r.Why)
		}
	}
	if vac && r.Verdict == "pass" {
		r.Verdict = "inconclusive"
		r.Why = "vacuous"
	}
	r.DecideTime = time.Since(t1)
	if r.Verdict != "pass" {
		return r
	}
	if j.Cross && j.Race == false {
		any := False
		for _, gl := range gs {
			if j.Kinds == nil || j.Kinds[gl.kind] {
				any = e.g.Or(any, gl.g)
			}
		}
		r.Cross = map[string]int{}
		if any == False {
			r.Cross["folded to false"]++
		} else {
			secs := int(time.Until(e.deadline).Seconds())
			if secs > j.CrossSecs {
				secs = j.CrossSecs
			}
			if secs > 1 {
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
				r.Cross["z3 "+RunSMT(ctx, "z3", WriteSMT(e.g, []Lit{e.constr, any}, false))]++
				cancel()
				cnf, vars := WriteDimacs(e.g, []Lit{e.constr, any})
				ctx, cancel = context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
				k, _ := RunKissat(ctx, cnf, len(vars), secs)
				cancel()
				r.Cross["kissat "+[]string{"unsat", "sat", "unknown"}[k]]++
			}
		}
	}
	rnd := rand.New(rand.NewSource(j.Seed))
	for i := 0; i < j.Samples; i++ {
		as := []Lit{end}
		for k, x := range rnd.Perm(len(e.g.inputs)) {
			if len(as) > 30 || k > 60 {
				break
			}
			l := Lit(e.g.inputs[x]<<1 | uint32(rnd.Intn(2)))
			if e.sat.Solve(200, append(as, l)...) == 1 {
				as = append(as, l)
			}
		}
		if e.sat.Solve(20000, as...) == 1 {
			m := map[uint32]bool{}
			for _, n := range e.g.inputs {
				m[n] = e.sat.ModelInput(n)
			}
			r.Samples = append(r.Samples, e.extract("sample", "", func(n uint32) bool { return m[n] }))
		}
	}
	return r
}

// decide solves constr && g.
func (e *Eng) decide(g Lit) (int, func(uint32) bool) {
	res := e.sat.Solve(100000, g)
	if res == 1 {
		m := map[uint32]bool{}
		for _, n := range e.g.inputs {
			m[n] = e.sat.ModelInput(n)
		}
		return 1, func(n uint32) bool { return m[n] }
	}
	if res == 0 {
		return 0, nil
	}
	left := time.Until(e.deadline)
	if left < 5*time.Second {
		return 2, nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), left)
	defer cancel()
	cnf, vars := WriteDimacs(e.g, []Lit{e.constr, g})
	k, model := RunKissat(ctx, cnf, len(vars), int(left.Seconds()))
	if k == 1 {
		return 1, func(n uint32) bool { v := vars[n]; return v > 0 && model[v] }
	}
	return k, nil
}

// extract turns a model into harness inputs, random draws and a schedule.
func (e *Eng) extract(kind, label string, model func(uint32) bool) *Cex {
	c := &Cex{Kind: kind, Label: label, Inputs: map[string]interface{}{}, Draws: map[int][]int64{}}
	val := e.g.EvalAll(model)
	ev := func(l Lit) bool { return val[l.node()] != l.neg() }
	if !ev(e.constr) {
		c.Obs = append(c.Obs, "CONSTRAINT FALSE")
	}
	for i, u := range e.dbgUnsat {
		if ev(u) {
			c.Obs = append(c.Obs, fmt.Sprintf("WRONG UNSAT %d of %d: %v", i, len(e.dbgUnsat), u))
		}
	}
	word := func(b []Lit) int64 {
		var v uint64
		for i, l := range b {
			if i < 64 && ev(l) {
				v |= 1 << i
			}
		}
		return int64(v)
	}
	conc := func(v Val) interface{} {
		switch x := v.(type) {
		case Lit:
			return ev(x)
		case *BV:
			return word(x.b)
		case *Sum:
			for _, en := range x.e {
				if ev(en.g) {
					if en.l.k == KStr {
						return en.l.p
					}
					return en.l.a
				}
			}
			return int64(0)
		case *SymStr:
			n := word(x.n)
			var bs []byte
			for i := int64(0); i < n && i < maxStr; i++ {
				bs = append(bs, byte(word(x.by[i])))
			}
			return bs
		}
		return nil
	}
	for _, nd := range e.nondets {
		if ev(nd.g) {
			c.Inputs[nd.label] = conc(nd.v)
		}
	}
	for _, x := range e.events {
		if !ev(x.g) {
			continue
		}
		switch x.kind {
		case "draw":
			v, _ := conc(x.val).(int64)
			c.Draws[x.thread] = append(c.Draws[x.thread], v)
		case "obs":
			c.Obs = append(c.Obs, fmt.Sprintf("%d %s %v %v", x.thread, x.info, conc(x.val), conc(x.val2)))
		case "vis", "plain":
			n := len(c.Sched)
			if n == 0 || c.Sched[n-1].Round != x.round || c.Sched[n-1].Thread != x.thread {
				c.Sched = append(c.Sched, SegRun{Thread: x.thread, Round: x.round})
				n++
			}
			if x.kind == "plain" {
				c.Sched[n-1].Plain = strings.SplitN(x.info, "(", 2)[0]
			} else {
				c.Sched[n-1].Vis++
			}
		}
	}
	return c
}
