package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Property string
	Kind     string
	Label    string
	Entry    string
	Params   map[string]string
	Race     bool
	Cex      *Cex
	Observed []outcome
	Scenario string
	Kinds    []string
}

func (v *violation) signature() string {
	return v.Kind + " | " + v.Label + " | " + v.Entry + " | " + v.Params["variant"]
}

// known reads the entries "known: property=ID sig=<kind | label | entry | variant> :: text".
func known(file, id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		p := "known: property=" + id + " sig="
		if !strings.HasPrefix(l, p) {
			continue
		}
		sig, text, _ := strings.Cut(l[len(p):], " :: ")
		m[strings.TrimSpace(sig)] = text
	}
	return m
}

// obsAgree compares the predicted results of every goroutine with the observed ones.
func obsAgree(c *Cex, os1 []outcome) (bool, string) {
	by := func(xs []string) map[string][]string {
		m := map[string][]string{}
		for _, x := range xs {
			t, rest, _ := strings.Cut(x, " ")
			m[t] = append(m[t], rest)
		}
		return m
	}
	var got []string
	ended := false
	for _, o := range os1 {
		switch o.Kind {
		case "obs":
			got = append(got, o.Msg)
		case "end":
			ended = true
		default:
			return false, "the compiled code: " + o.Kind + ": " + o.Msg
		}
	}
	if !ended {
		return false, "the compiled code did not reach the end"
	}
	a, b := by(c.Obs), by(got)
	if !reflect.DeepEqual(a, b) {
		return false, fmt.Sprintf("predicted %v, observed %v", c.Obs, got)
	}
	return true, ""
}

func check(root, dir, id, tier string) int {
	start := time.Now()
	s := specs[id]
	if s == nil {
		fmt.Println("no such property:", id)
		return 2
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	thorough := tier == "thorough"
	limit := 330 * time.Second
	perJob := 150
	nSamples, nCross, crossSecs := 16, 8, 6
	if thorough {
		limit = 840 * time.Second
		perJob = 400
		nSamples, nCross, crossSecs = 60, 30, 30
	}
	deadline := start.Add(limit)
	harness := filepath.Join(root, "harness")
	p, err := loadProg(dir, harness)
	if err != nil {
		fmt.Println("cannot load the code under test:", err)
		return 2
	}
	cs, classQ := classesOf(p)
	jobs := s.plan(cs, thorough)
	// a spread of the jobs also yields sample runs and is cross-checked
	var spread []int
	for i, j := range jobs {
		if !j.Race && j.Entry != "VHleak" {
			spread = append(spread, i)
		}
	}
	pickN := func(n int, f func(j *Job)) {
		if len(spread) == 0 {
			return
		}
		off := int(seed) % len(spread)
		if n > len(spread) {
			n = len(spread)
		}
		for k := 0; k < n; k++ {
			f(jobs[spread[(off+k*len(spread)/n)%len(spread)]])
		}
	}
	pickN(nSamples, func(j *Job) { j.Samples = 2 })
	pickN(nCross, func(j *Job) { j.Cross, j.CrossSecs = true, crossSecs })
	for i, j := range jobs {
		j.Secs = perJob
		j.Seed = seed*1000003 + int64(i)
	}
	knownSig := known(filepath.Join(root, "known-findings.txt"), id)

	rep := newReplayer(dir, harness, filepath.Join(root, "native"))
	defer rep.Close()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	pl := &pool{dir: dir, harness: harness, n: workers, quit: make(chan struct{}), rss: 1500}

	var mu sync.Mutex
	results := make([]*Result, len(jobs))
	var found *violation
	knownSeen := map[string]bool{}
	var unconfirmed []string
	replays, agree := 0, 0
	var disagree []string
	var sampleText []interface{}
	sem := make(chan struct{}, 2)
	var wg sync.WaitGroup
	handle := func(i int, r *Result) {
		defer wg.Done()
		sem <- struct{}{}
		defer func() { <-sem }()
		j := r.Job
		for k, c := range r.Cex {
			mu.Lock()
			stop := found != nil
			mu.Unlock()
			if stop || k >= 6 {
				return
			}
			var os1 []outcome
			var err error
			for try := 0; try < 3; try++ {
				os1, err = rep.Run(c, j.Entry, j.Params, j.Race)
				if err != nil {
					break
				}
				if _, ok := confirmed(os1, j.Kinds); ok || !j.Race {
					break
				}
			}
			mu.Lock()
			replays++
			mu.Unlock()
			o, ok := confirmed(os1, j.Kinds)
			if err != nil || !ok {
				mu.Lock()
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s: not reproduced by the compiled code (%v %v)", describe(j), c.Kind, c.Label, os1, err))
				mu.Unlock()
				continue
			}
			v := &violation{Property: id, Kind: o.Kind, Label: o.Msg, Entry: j.Entry, Params: j.Params, Race: j.Race, Cex: c, Observed: os1, Scenario: describe(j)}
			if c.Kind == o.Kind {
				v.Label = c.Label
			}
			for k := range j.Kinds {
				v.Kinds = append(v.Kinds, k)
			}
			sort.Strings(v.Kinds)
			mu.Lock()
			if text, ok := knownSig[v.signature()]; ok {
				if !knownSeen[v.signature()] {
					knownSeen[v.signature()] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, text)
				}
				mu.Unlock()
				continue
			}
			if found == nil {
				found = v
				pl.stop()
			}
			mu.Unlock()
			return
		}
		for _, c := range r.Samples {
			mu.Lock()
			stop := found != nil
			mu.Unlock()
			if stop || time.Now().After(deadline) {
				return
			}
			os1, err := rep.Run(c, j.Entry, j.Params, false)
			mu.Lock()
			if err != nil {
				disagree = append(disagree, describe(j)+": "+err.Error())
			} else if ok, why := obsAgree(c, os1); ok {
				agree++
				if len(sampleText) < 3 {
					sampleText = append(sampleText, map[string]interface{}{"scenario": describe(j), "inputs": jsonInputs(c.Inputs), "draws": c.Draws, "schedule": c.Sched, "results": c.Obs})
				}
			} else {
				disagree = append(disagree, describe(j)+": "+why)
			}
			mu.Unlock()
		}
	}
	err = pl.run(jobs, deadline, func(i int, r *Result) {
		mu.Lock()
		results[i] = r
		mu.Unlock()
		if len(r.Cex)+len(r.Samples) > 0 {
			wg.Add(1)
			go handle(i, r)
		}
	})
	wg.Wait()
	if err != nil && found == nil {
		fmt.Println("workers failed:", err)
		return 2
	}

	// evidence
	var paths, instrs, vis, satCalls, simHits, asserts int64
	var satTime, execTime, decideTime time.Duration
	queries, done, nodes := 0, 0, 0
	funcs, stubs, cross := map[string]int{}, map[string]int{}, map[string]int{}
	bounds := map[string]int{}
	var inconclusive []string
	notRun := 0
	var scen []string
	verdicts := map[string]int{}
	for i, r := range results {
		if r == nil {
			notRun++
			continue
		}
		verdicts[r.Verdict]++
		if r.Verdict == "pass" {
			done++
		} else if r.Verdict == "inconclusive" {
			inconclusive = append(inconclusive, describe(jobs[i])+": "+r.Why)
		}
		paths += r.Paths
		instrs += r.Instrs
		vis += r.Vis
		satCalls += r.SatCalls
		simHits += r.SimHits
		asserts += int64(r.Asserts)
		satTime += r.SatTime
		execTime += r.ExecTime
		decideTime += r.DecideTime
		queries += r.Queries
		nodes += r.Nodes
		for k, n := range r.Funcs {
			funcs[k] += n
		}
		for k, n := range r.Stubs {
			stubs[k] += n
		}
		for k, n := range r.Cross {
			cross[k] += n
		}
		for _, b := range r.Bounds {
			bounds[b]++
		}
		scen = append(scen, fmt.Sprintf("%s %.2fs: %s", r.Verdict, r.Wall.Seconds(), describe(jobs[i])))
	}
	inconclusive = append(inconclusive, unconfirmed...)
	var target, harn []string
	for f := range funcs {
		if strings.HasPrefix(f, "harness:") {
			harn = append(harn, f[8:])
		} else {
			target = append(target, f)
		}
	}
	sort.Strings(target)
	sort.Strings(harn)
	var classes []interface{}
	for _, c := range cs {
		m := map[string]interface{}{"checked": c.Rep, "same_code": c.Members}
		if c.Err != "" {
			m["note"] = c.Err
		}
		classes = append(classes, m)
	}
	if len(sampleText) == 0 {
		for i := range results {
			if results[i] != nil && len(sampleText) < 3 {
				sampleText = append(sampleText, map[string]interface{}{"scenario": describe(jobs[i]), "verdict": results[i].Verdict, "symbolic_inputs": results[i].Inputs, "formula_nodes": results[i].Nodes})
			}
		}
	}
	viol := 0
	if found != nil {
		viol = 1
	}
	cov := map[string]interface{}{
		"states":                        paths,
		"transitions":                   instrs,
		"traces_validated_against_impl": agree,
		"samples":                       sampleText,
		"meaning":                       "states: merged symbolic states executed; transitions: SSA instructions executed symbolically; traces_validated_against_impl: concrete runs predicted by the encoding whose results the compiled code reproduced under the same schedule",
		"scenarios_planned":             len(jobs),
		"scenarios_passed":              done,
		"scenarios_not_run":             notRun,
		"verdicts":                      verdicts,
		"inconclusive":                  inconclusive,
		"encoding_disagreements":        disagree,
		"final_queries":                 queries,
		"assertion_sites":               asserts,
		"solver_calls":                  satCalls,
		"answered_by_simulation":        simHits,
		"solver_seconds":                satTime.Seconds(),
		"execution_seconds":             execTime.Seconds(),
		"decision_seconds":              decideTime.Seconds(),
		"formula_nodes":                 nodes,
		"shared_memory_steps":           vis,
		"functions_encoded":             target,
		"harness_functions":             harn,
		"stubs":                         stubs,
		"loop_limits_reached":           bounds,
		"solver_cross_check":            cross,
		"classes":                       classes,
		"class_queries":                 classQ,
		"counterexamples_replayed":      replays,
		"bounds":                        scen,
		"exhaustive":                    false,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": s.level, "coverage": cov,
		"assumptions": assumptions(s), "wall_s": time.Since(start).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evd := filepath.Join(root, "evidence")
	os.MkdirAll(evd, 0o755)
	if err := os.WriteFile(filepath.Join(evd, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %d of %d scenarios hold, %d inconclusive, %d not run; %d queries, %d solver calls (%.1f s), %d sample runs agree; wall %.1f s\n",
		id, tier, done, len(jobs), len(inconclusive), notRun, queries, satCalls, satTime.Seconds(), agree, time.Since(start).Seconds())
	for _, x := range disagree {
		fmt.Println("NOTE: the encoding and the compiled code differ:", clip(x, 600))
	}
	for i, x := range inconclusive {
		if i < 12 {
			fmt.Println("NOTE: reduced bound:", clip(x, 600))
		}
	}
	for k := range cross {
		if strings.HasSuffix(k, " sat") {
			fmt.Println("NOTE: solvers disagree:", k)
		}
	}
	if found != nil {
		f := filepath.Join(evd, "replay-"+id+".json")
		b, _ := json.MarshalIndent(found, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("scenario: %s\n%s: %s\nseen in the compiled code: %s\n", found.Scenario, found.Cex.Kind, found.Cex.Label, clip(fmt.Sprint(found.Observed), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// replayFile runs a recorded counterexample again.
func replayFile(root, dir, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v violation
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		fmt.Println(err)
		return 2
	}
	rep := newReplayer(dir, filepath.Join(root, "harness"), filepath.Join(root, "native"))
	defer rep.Close()
	os1, err := rep.Run(v.Cex, v.Entry, v.Params, v.Race)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	kinds := map[string]bool{}
	for _, k := range v.Kinds {
		kinds[k] = true
	}
	for _, o := range os1 {
		fmt.Println(o.Kind, o.Msg)
	}
	if _, ok := confirmed(os1, kinds); ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	return 0
}

// assumptions states what every verdict rests on.
func assumptions(s *spec) []string {
	a := []string{
		"bounded: each scenario's number of keys, calls, goroutines, context switches and node heights (in coverage.bounds) limits the claim; nothing is claimed beyond it",
		"the heights of new nodes are drawn from the levels mask of the scenario (bit i: height i+1); levels=0 means every outcome of the random source within 20 draws",
		"sequentially consistent interleavings at synchronising operations (atomics, locks, callback calls), as the Go memory model grants to race-free programs; plain accesses are checked for races by C07",
		"sync, sync/atomic, math/bits, math, strings, runtime and fastrand functions are modelled by their documentation (coverage.stubs)",
		"memory allocation succeeds; garbage collection is unobserved except for reachability in C17",
		"map types whose functions were shown to have the same code up to the comparison are checked through one of them (coverage.classes); the comparison itself is decided for every type by C09",
		"before a scenario the map holds an arbitrary subset of the keys, inserted in ascending order with arbitrary heights of the mask",
	}
	if s.race {
		a = append(a, "a race is two conflicting accesses, one of them not atomic, that are enabled next to each other in some interleaving of the bound")
	}
	return append(a, s.outside...)
}
