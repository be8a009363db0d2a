package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		unsup("number %q", s)
	}
	return n
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

// Prog is the loaded program.
type Prog struct {
	prog   *ssa.Program
	pkg    *ssa.Package
	fset   *token.FileSet
	initFn *ssa.Function
	mu     sync.Mutex
	clos   map[*ssa.Function]*Closure
	intr   map[*ssa.Function]intrinsicFn
	prgC   map[[2]int]bool
	insts  map[string][]*ssa.Function
}

const harnessPrefix = "zz_verif_"

var goEnv = []string{"GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"}

// loadProg loads the package in dir together with the harness files.
func loadProg(dir, harnessDir string) (*Prog, error) {
	overlay := map[string][]byte{}
	hs, _ := filepath.Glob(filepath.Join(harnessDir, "*.go"))
	for _, h := range hs {
		if strings.HasSuffix(h, "_native.go") {
			continue
		}
		b, err := os.ReadFile(h)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(dir, harnessPrefix+filepath.Base(h))] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset, Overlay: overlay, Env: append(os.Environ(), goEnv...)}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages", len(ps))
	}
	for _, e := range ps[0].Errors {
		return nil, fmt.Errorf("load: %v", e)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, fset: fset, clos: map[*ssa.Function]*Closure{}, intr: map[*ssa.Function]intrinsicFn{}, prgC: map[[2]int]bool{}}
	p.pkg = prog.Package(ps[0].Types)
	p.pkg.Build()
	p.initFn = p.pkg.Func("init")
	return p, nil
}

func (p *Prog) closureOf(fn *ssa.Function) *Closure {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := p.clos[fn]
	if c == nil {
		c = &Closure{fn: fn}
		p.clos[fn] = c
	}
	return c
}

func (p *Prog) fileOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pos().IsValid() {
			return filepath.Base(p.fset.Position(f.Pos()).Filename)
		}
		if o := f.Origin(); o != nil && o.Pos().IsValid() {
			return filepath.Base(p.fset.Position(o.Pos()).Filename)
		}
	}
	return ""
}

func (p *Prog) isHarness(fn *ssa.Function) bool {
	fi := funcInfo0(fn)
	if fi.kindSet.Load() {
		return fi.harness
	}
	h := strings.HasPrefix(p.fileOf(fn), harnessPrefix)
	fi.harness = h
	fi.kindSet.Store(true)
	return h
}

// inTarget reports whether fn belongs to the checked package and not to the harness.
func (p *Prog) inTarget(fn *ssa.Function) bool {
	if p.isHarness(fn) {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg == p.pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg == p.pkg
		}
	}
	return false
}

func (p *Prog) intrinsic(fn *ssa.Function) intrinsicFn {
	p.mu.Lock()
	in, ok := p.intr[fn]
	p.mu.Unlock()
	if ok {
		return in
	}
	p.ensureBuilt(fn)
	in = p.makeIntrinsic(fn)
	if in == nil && fn.Name() == "init" && fn.Pkg != nil && fn.Pkg != p.pkg && fn.Parent() == nil && fn.Signature.Recv() == nil {
		in = nothing // initialisers of other packages
	}
	p.mu.Lock()
	p.intr[fn] = in
	p.mu.Unlock()
	return in
}

var buildMu sync.Mutex

func (p *Prog) ensureBuilt(fn *ssa.Function) {
	if len(fn.Blocks) > 0 {
		return
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk != nil {
		buildMu.Lock()
		pk.Build()
		buildMu.Unlock()
	}
}

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		unsup("no method %v on %v", m, t)
	}
	return fn
}

// progressLoop reports whether each iteration of l moves an induction variable or a cursor.
func (p *Prog) progressLoop(fi *FuncInfo, l *loopInfo) bool {
	k := [2]int{int(fi.id), l.id}
	p.mu.Lock()
	defer p.mu.Unlock()
	if v, ok := p.prgC[k]; ok {
		return v
	}
	h := fi.fn.Blocks[l.header]
	res := false
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		good := true
		n := 0
		for i, pr := range h.Preds {
			if !l.members[pr.Index] {
				continue
			}
			n++
			if !derived(ph.Edges[i], ph, 0, false) {
				good = false
			}
		}
		if good && n > 0 {
			res = true
		}
	}
	p.prgC[k] = res
	return res
}

// derived reports whether v is computed from ph by arithmetic with a constant or by following it.
func derived(v ssa.Value, ph *ssa.Phi, depth int, moved bool) bool {
	if depth > 8 {
		return false
	}
	if v == ssa.Value(ph) {
		return moved
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		_, c := x.Y.(*ssa.Const)
		return c && (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.SHR || x.Op == token.QUO) && derived(x.X, ph, depth+1, true)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if derived(a, ph, depth+1, true) {
				return true
			}
		}
	case *ssa.UnOp:
		return derived(x.X, ph, depth+1, moved || x.Op == token.MUL)
	case *ssa.FieldAddr:
		return derived(x.X, ph, depth+1, moved)
	case *ssa.IndexAddr:
		return derived(x.X, ph, depth+1, moved)
	case *ssa.ChangeType:
		return derived(x.X, ph, depth+1, moved)
	case *ssa.Convert:
		return derived(x.X, ph, depth+1, moved)
	case *ssa.Phi:
		if len(x.Edges) == 0 {
			return false
		}
		for _, ed := range x.Edges {
			if !derived(ed, ph, depth+1, moved) {
				return false
			}
		}
		return true
	}
	return false
}

func allFunctions(p *ssa.Program) map[*ssa.Function]bool {
	buildMu.Lock()
	defer buildMu.Unlock()
	return ssautil.AllFunctions(p)
}
