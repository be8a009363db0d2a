package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

type classInfo struct {
	Digest  string
	Members []string
	Rep     string
	Err     string
}

var repOrder = []string{"int", "func", "ordered", "string", "float64"}

// classesOf groups the map types whose code was shown to be the same.
func classesOf(p *Prog) (cs []*classInfo, queries int) {
	by := map[string]*classInfo{}
	for _, v := range allVariants {
		d, _, nq, err := p.classDigest(v)
		queries += nq
		if err != nil {
			d = "own:" + v
		}
		c := by[d]
		if c == nil {
			c = &classInfo{Digest: d}
			by[d] = c
			cs = append(cs, c)
		}
		if err != nil {
			c.Err = err.Error()
		}
		c.Members = append(c.Members, v)
	}
	for _, c := range cs {
		c.Rep = c.Members[0]
	pick:
		for _, r := range repOrder {
			for _, m := range c.Members {
				if m == r {
					c.Rep = r
					break pick
				}
			}
		}
	}
	// small classes first: a type that differs from its siblings deserves attention
	sort.SliceStable(cs, func(a, b int) bool { return len(cs[a].Members) < len(cs[b].Members) })
	return
}

func (s *spec) plan(cs []*classInfo, thorough bool) []*Job {
	var lists [][]*Job
	add := func(f func(bool) []*Job, variants []string) {
		if f == nil {
			return
		}
		for _, v := range variants {
			js := f(thorough)
			for _, j := range js {
				if _, ok := j.Params["variant"]; !ok {
					j.Params["variant"] = v
				}
			}
			lists = append(lists, js)
		}
	}
	var reps []string
	for _, c := range cs {
		reps = append(reps, c.Rep)
	}
	add(s.jobs, reps)
	var out []*Job
	for i, more := 0, true; more; i++ {
		more = false
		for _, l := range lists {
			if i < len(l) {
				out = append(out, l[i])
				more = true
			}
		}
	}
	var tail []*Job
	lists = nil
	add(s.each, allVariants)
	for _, l := range lists {
		tail = append(tail, l...)
	}
	if s.fixed != nil {
		tail = append(tail, s.fixed(thorough)...)
	}
	// the light scenarios for every map type come first
	out = append(tail, out...)
	for _, j := range out {
		j.Race = j.Race || s.race
		j.Wide = j.Wide || s.wide
		if j.Kinds != nil {
			continue
		}
		j.Kinds = map[string]bool{}
		for _, k := range s.kinds {
			j.Kinds[k] = true
		}
	}
	return out
}

// bench runs the jobs of a property and prints their times.
func bench(dir, harness, id string, thorough bool, filter string, secs int, variant string) {
	s := specs[id]
	p, err := loadProg(dir, harness)
	if err != nil {
		fmt.Println(err)
		return
	}
	cs, nq := classesOf(p)
	for _, c := range cs {
		fmt.Println("class", c.Rep, len(c.Members), c.Err)
	}
	fmt.Println("class queries", nq)
	if variant != "" {
		cs = []*classInfo{{Rep: variant}}
	}
	js := s.plan(cs, thorough)
	if filter != "" {
		var k []*Job
		for _, j := range js {
			if strings.Contains(describe(j), filter) {
				k = append(k, j)
			}
		}
		js = k
	}
	fmt.Println(len(js), "jobs")
	pl := &pool{dir: dir, harness: harness, n: runtime.NumCPU(), quit: make(chan struct{}), rss: 1500}
	t0 := time.Now()
	total := time.Duration(0)
	err = pl.run(js, time.Now().Add(time.Duration(secs)*time.Second), func(i int, r *Result) {
		pl.mu.Lock()
		total += r.Wall
		fmt.Printf("%6.2fs %s %s %s asserts=%d inputs=%d", r.Wall.Seconds(), r.Verdict, r.Why, describe(r.Job), r.Asserts, r.Inputs)
		for _, c := range r.Cex {
			fmt.Printf(" [%s %s]", c.Kind, c.Label)
		}
		fmt.Println()
		pl.mu.Unlock()
	})
	fmt.Println("wall", time.Since(t0), "cpu", total, err)
}
