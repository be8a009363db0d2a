package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Replayer runs counterexamples against the real code, compiled with stand-ins for the
// synchronisation and random packages that follow the recorded schedule and draws.
type Replayer struct {
	dir, harness, native string
	work                 string
	mu                   sync.Mutex
	built                map[bool]error
}

func newReplayer(dir, harness, native string) *Replayer {
	return &Replayer{dir: dir, harness: harness, native: native, built: map[bool]error{}}
}

func (r *Replayer) Close() {
	if r.work != "" {
		os.RemoveAll(r.work)
	}
}

func modulePath(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return "", err
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(b)
	if m == nil {
		return "", fmt.Errorf("no module path in go.mod")
	}
	return strings.Trim(string(m[1]), `"`), nil
}

var shims = map[string]struct{ dir, name string }{
	"sync":         {"vsync", "sync"},
	"sync/atomic":  {"vatomic", "atomic"},
	"math/rand":    {"vrand", "rand"},
	"math/rand/v2": {"vrand", "rand"},
}

// rewriteImports redirects the imports of one source file to the stand-ins.
// With assigns > 0 it also turns plain stores into calls at which the schedule can stop a goroutine.
func rewriteImports(src []byte, name, mod string, assigns int) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		from, to int
		s        string
	}
	var es []edit
	local := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[path]
		if strings.HasSuffix(path, "/fastrand") {
			sh, ok = struct{ dir, name string }{"vrand", "fastrand"}, true
		}
		if path == "runtime" || path == "time" {
			n := path
			if im.Name != nil {
				n = im.Name.Name
			}
			local[n] = path
		}
		if !ok {
			continue
		}
		n := sh.name
		if im.Name != nil {
			n = im.Name.Name
		}
		es = append(es, edit{fs.Position(im.Pos()).Offset, fs.Position(im.End()).Offset, n + " " + strconv.Quote(mod+"/zzverif/"+sh.dir)})
	}
	tail := ""
	need := false
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		if p := local[id.Name]; p == "runtime" && s.Sel.Name == "Gosched" || p == "time" && s.Sel.Name == "Sleep" {
			es = append(es, edit{fs.Position(s.Pos()).Offset, fs.Position(s.End()).Offset, "zzsched." + s.Sel.Name})
			tail += "\nvar _ = " + id.Name + "." + s.Sel.Name + "\n"
			need = true
		}
		return true
	})
	if assigns > 0 {
		text := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		store := func(st ast.Stmt, lhs ast.Expr, rhs string) {
			switch l := lhs.(type) {
			case *ast.SelectorExpr, *ast.StarExpr:
			case *ast.IndexExpr:
				if assigns < 2 { // the element of a map has no address
					return
				}
			case *ast.Ident:
				if l.Name == "_" || l.Obj != nil && f.Scope.Lookup(l.Name) != l.Obj {
					return
				}
			default:
				return
			}
			p := fs.Position(st.Pos())
			a, b := p.Offset, fs.Position(st.End()).Offset
			for _, e := range es {
				if e.from < b && e.to > a {
					return
				}
			}
			es = append(es, edit{a, b, fmt.Sprintf("zzsched.Assign(&%s, %s, %q)", text(lhs), rhs, fmt.Sprintf("%s:%d", filepath.Base(name), p.Line))})
			need = true
		}
		simple := map[ast.Stmt]bool{}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				simple[s] = true
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.BlockStmt:
				list(s.List)
			case *ast.CaseClause:
				list(s.Body)
			case *ast.AssignStmt:
				if !simple[s] || len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE {
					break
				}
				if _, fn := s.Rhs[0].(*ast.FuncLit); fn {
					break
				}
				r := text(s.Rhs[0])
				if s.Tok != token.ASSIGN {
					r = text(s.Lhs[0]) + strings.TrimSuffix(s.Tok.String(), "=") + "(" + r + ")"
				}
				store(s, s.Lhs[0], r)
			case *ast.IncDecStmt:
				if simple[s] {
					store(s, s.X, text(s.X)+s.Tok.String()[:1]+"1")
				}
			}
			return true
		})
	}
	if need {
		o := fs.Position(f.Name.End()).Offset
		es = append(es, edit{o, o, "\nimport zzsched " + strconv.Quote(mod+"/zzverif/sched") + "\n"})
	}
	sort.Slice(es, func(a, b int) bool { return es[a].from > es[b].from })
	out := string(src)
	for _, e := range es {
		out = out[:e.from] + e.s + out[e.to:]
	}
	return []byte(out + tail), nil
}

func (r *Replayer) build(race bool) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if err, ok := r.built[race]; ok {
		return err
	}
	err := r.build1(race)
	r.built[race] = err
	return err
}

func (r *Replayer) bin(race bool) string {
	if race {
		return filepath.Join(r.work, "replay.race")
	}
	return filepath.Join(r.work, "replay")
}

func (r *Replayer) build1(race bool) error {
	for n := 2; !race && n > 0; n-- {
		if r.build2(race, n) == nil {
			return nil
		}
	}
	return r.build2(race, 0)
}

func (r *Replayer) build2(race bool, assigns int) error {
	if r.work == "" {
		w, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			return err
		}
		r.work = w
	}
	mod, err := modulePath(r.dir)
	if err != nil {
		return err
	}
	repl := map[string]string{}
	n := 0
	put := func(at string, b []byte) error {
		n++
		f := filepath.Join(r.work, fmt.Sprintf("s%v%v%d_%s", race, assigns, n, filepath.Base(at)))
		repl[at] = f
		return os.WriteFile(f, []byte(strings.ReplaceAll(string(b), "MODULE/zzverif", mod+"/zzverif")), 0o644)
	}
	fs, _ := filepath.Glob(filepath.Join(r.dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			repl[f] = ""
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		nb, err := rewriteImports(b, f, mod, assigns)
		if err != nil {
			return err
		}
		if string(nb) != string(b) {
			if err := put(f, nb); err != nil {
				return err
			}
		}
	}
	hs, _ := filepath.Glob(filepath.Join(r.harness, "*.go"))
	entries := map[string]bool{}
	for _, h := range hs {
		if filepath.Base(h) == "rt_sym.go" {
			continue
		}
		b, err := os.ReadFile(h)
		if err != nil {
			return err
		}
		for _, m := range regexp.MustCompile(`(?m)^func (VH\w+)\(\)`).FindAllSubmatch(b, -1) {
			entries[string(m[1])] = true
		}
		if err := put(filepath.Join(r.dir, harnessPrefix+strings.TrimSuffix(filepath.Base(h), ".go")+"_test.go"), b); err != nil {
			return err
		}
	}
	var es []string
	for e := range entries {
		es = append(es, e)
	}
	sort.Strings(es)
	reg := "package skipmap\n\nvar vEntries = map[string]func(){\n"
	for _, e := range es {
		reg += fmt.Sprintf("\t%q: %s,\n", e, e)
	}
	if err := put(filepath.Join(r.dir, harnessPrefix+"entries_test.go"), []byte(reg+"}\n")); err != nil {
		return err
	}
	for _, d := range []string{"sched", "vsync", "vatomic", "vrand"} {
		gs, _ := filepath.Glob(filepath.Join(r.native, d, "*.go"))
		for _, g := range gs {
			b, err := os.ReadFile(g)
			if err != nil {
				return err
			}
			if err := put(filepath.Join(r.dir, "zzverif", d, filepath.Base(g)), b); err != nil {
				return err
			}
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(r.work, fmt.Sprintf("overlay%v%v.json", race, assigns))
	if err := os.WriteFile(ov, js, 0o644); err != nil {
		return err
	}
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", r.bin(race)}
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = r.dir
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the replay: %v\n%s", err, out)
	}
	return nil
}

type outcome struct{ Kind, Msg string }

// Run replays c and reports what happened.
func (r *Replayer) Run(c *Cex, entry string, params map[string]string, race bool) ([]outcome, error) {
	if err := r.build(race); err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(r.work, "cex-*.json")
	if err != nil {
		return nil, err
	}
	js, _ := json.Marshal(map[string]interface{}{"Entry": entry, "Params": params, "Inputs": jsonInputs(c.Inputs), "Draws": c.Draws, "Sched": c.Sched})
	f.Write(js)
	f.Close()
	out := f.Name() + ".out"
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin(race), "-test.run", "^TestVerifReplay$", "-test.timeout", "80s")
	cmd.Dir = r.work
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "VERIF_OUT="+out, "GORACE=halt_on_error=0 exitcode=0 history_size=5")
	txt, _ := cmd.CombinedOutput()
	if os.Getenv("VDBG") != "" {
		os.Stderr.Write(txt)
	}
	var os1 []outcome
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &os1)
	} else {
		os1 = append(os1, outcome{"panic", "the process ended: " + tail(string(txt), 2000)})
	}
	if race {
		os1 = append(os1, r.races(string(txt))...)
	}
	return os1, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func jsonInputs(in map[string]interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range in {
		if b, ok := v.([]byte); ok {
			l := []int{}
			for _, x := range b {
				l = append(l, int(x))
			}
			v = l
		}
		m[k] = v
	}
	return m
}

var frameRe = regexp.MustCompile(`^\s+(\S+\.go):(\d+)`)

// races picks the race detector's reports about the checked package.
func (r *Replayer) races(txt string) []outcome {
	var os1 []outcome
	for _, blk := range strings.Split(txt, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "=================="); i >= 0 {
			blk = blk[:i]
		}
		var places []string
		ok := true
		for _, part := range strings.Split(blk, "\n\n") {
			ls := strings.Split(strings.TrimLeft(part, "\n"), "\n")
			if len(ls) == 0 || !(strings.Contains(ls[0], "ead at ") || strings.Contains(ls[0], "rite at ")) {
				continue
			}
			place, first := "", true
			for _, l := range ls[1:] {
				m := frameRe.FindStringSubmatch(l)
				if m == nil {
					continue
				}
				if first && strings.Contains(m[1], "zzverif/sched") || first && strings.Contains(m[1], "/sched.go") {
					ok = false
				}
				first = false
				b := filepath.Base(m[1])
				if strings.Contains(b, harnessPrefix) && !strings.Contains(b, "cells") {
					break
				}
				if strings.HasPrefix(m[1], r.work) || filepath.Dir(m[1]) == r.dir {
					if strings.Contains(m[1], "zzverif") {
						continue
					}
					place = b + ":" + m[2]
					break
				}
			}
			if place == "" {
				ok = false
			}
			places = append(places, ls[0]+" "+place)
		}
		if ok && len(places) >= 2 {
			os1 = append(os1, outcome{"race", strings.Join(places, " / ")})
		}
	}
	return os1
}

// confirmed reports whether an outcome shows a failure of one of the kinds.
func confirmed(os1 []outcome, kinds map[string]bool) (outcome, bool) {
	for _, o := range os1 {
		if o.Kind == "assume" {
			return outcome{}, false
		}
	}
	for _, o := range os1 {
		if o.Kind != "end" && o.Kind != "obs" && (kinds == nil || kinds[o.Kind]) {
			return o, true
		}
	}
	return outcome{}, false
}
