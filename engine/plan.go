package main

import (
	"fmt"
	"strings"
)

// What each property is checked by: the scenarios, their bounds and the failure classes that count.

const (
	oS = 1 << iota
	oL
	oD
	oI
	oZ
	oX
	oR
	oN
)

var opNames = []string{"Store", "Load", "LoadAndDelete", "LoadOrStore", "LoadOrStoreLazy", "Delete", "Range", "Len"}

const (
	oPoint = oS | oL | oD | oI | oZ | oX
	oWrite = oS | oD | oI | oZ | oX
	oIns   = oS | oI | oZ
	oDel   = oD | oX
	oRead  = oL | oR | oN
)

func maskBits(m int) []int {
	var r []int
	for i := 0; i < 30; i++ {
		if m>>i&1 == 1 {
			r = append(r, 1<<i)
		}
	}
	return r
}

type pm map[string]string

// P builds parameters from alternating names and values.
func P(kv ...interface{}) pm {
	m := pm{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = fmt.Sprint(kv[i+1])
	}
	return m
}

func (m pm) with(kv ...interface{}) pm {
	r := pm{}
	for k, v := range m {
		r[k] = v
	}
	for k, v := range P(kv...) {
		r[k] = v
	}
	return r
}

type spec struct {
	id       string
	level    string
	kinds    []string
	per      string // class: one map type per class; variant: every map type
	race     bool
	wide     bool
	jobs     func(thorough bool) []*Job // for one map type; the variant is filled in
	fixed    func(thorough bool) []*Job // in addition, as they are
	each     func(thorough bool) []*Job // in addition, for every map type
	bounds   []string
	outside  []string
	quickSec int
}

func job(entry string, p pm) *Job { return &Job{Entry: entry, Params: p} }

// splitted makes one job per combination of single values for the named mask parameters.
func splitted(entry string, p pm, names ...string) []*Job {
	out := []pm{p}
	for _, n := range names {
		var nx []pm
		for _, q := range out {
			var m int
			fmt.Sscan(q[n], &m)
			for _, b := range maskBits(m) {
				nx = append(nx, q.with(n, b))
			}
		}
		out = nx
	}
	var js []*Job
	for _, q := range out {
		js = append(js, job(entry, q))
	}
	return js
}

func concP(check string, nkeys, na, nb, nc, levels int, sched string) pm {
	p := P("check", check, "nkeys", nkeys, "na", na, "nb", nb, "nc", nc, "levels", levels, "sched", sched, "post", 0)
	all := 1<<nkeys - 1
	for t, n := range map[string]int{"A": na, "B": nb, "C": nc} {
		for i := 0; i < n; i++ {
			p["ops"+t+fmt.Sprint(i)] = fmt.Sprint(oPoint)
		}
		p["keys"+t] = fmt.Sprint(all)
	}
	return p
}

func cat(js ...[]*Job) []*Job {
	var r []*Job
	for _, j := range js {
		r = append(r, j...)
	}
	return r
}

func describe(j *Job) string {
	var b strings.Builder
	b.WriteString(strings.TrimPrefix(j.Entry, "VH"))
	keys := []string{}
	for k := range j.Params {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		v := j.Params[k]
		if strings.HasPrefix(k, "ops") {
			var m int
			fmt.Sscan(v, &m)
			var ns []string
			for i, n := range opNames {
				if m>>i&1 == 1 {
					ns = append(ns, n)
				}
			}
			v = strings.Join(ns, "|")
			if m == 255 {
				v = "any"
			} else if m == oPoint {
				v = "any point call"
			}
		}
		if strings.HasPrefix(k, "keys") {
			var m int
			fmt.Sscan(v, &m)
			var ns []string
			for i := 0; i < 8; i++ {
				if m>>i&1 == 1 {
					ns = append(ns, fmt.Sprint(i))
				}
			}
			v = "{" + strings.Join(ns, ",") + "}"
		}
		fmt.Fprintf(&b, " %s=%s", k, v)
	}
	return b.String()
}
