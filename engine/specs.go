package main

import "fmt"

// Schedules of goroutines A (0), B (1), C (2): a digit is a segment that may stop before any
// visible operation, a letter runs until it ends or must wait for a lock.
const (
	sch1 = "0bab"     // B runs inside A
	sch2 = "01abab"   // A stops, B stops, A, B
	sch3 = "010bab"   // A, B, A, B, A
	sch4 = "0101abab" // A, B, A, B, A, B
	sch5 = "01cabcab" // A stops, B stops, C runs, A, B
)

const (
	low  = 3      // heights 1, 2
	low3 = 7      // heights 1, 2, 3
	tall = 1 | 8  // heights 1, 4: above the initial height of the map
	big  = 1 | 32 // heights 1, 6: beyond the four layers kept in the node itself
	top  = 1 | 8 | 1<<15
)

var allKeyPairs = [][2]int{{1, 1}, {2, 2}, {1, 2}, {2, 1}}

// concJobs: overlapping point calls, over all kinds.
func concJobs(check string, t bool) []*Job {
	var js []*Job
	add := func(x []*Job) { js = append(js, x...) }
	add(splitted("VHconc", concP(check, 1, 1, 1, 0, low, sch2), "opsA0"))
	add(splitted("VHconc", concP(check, 1, 1, 2, 0, low, sch1), "opsA0"))
	add(splitted("VHconc", concP(check, 1, 2, 1, 0, low, sch1), "opsA0"))
	add(splitted("VHconc", concP(check, 1, 1, 1, 1, 1, sch5), "opsA0"))
	add(aged(splitted("VHconc", concP(check, 2, 1, 1, 0, low, sch1), "opsA0")))
	add(aged(splitted("VHconc", concP(check, 1, 1, 1, 0, low, sch2), "opsA0")))
	for _, k := range allKeyPairs {
		add(splitted("VHconc", concP(check, 2, 1, 1, 0, low, sch2).with("keysA", k[0], "keysB", k[1]), "opsA0"))
	}
	add(splitted("VHconc", concP(check, 1, 1, 1, 0, low, sch3), "opsA0"))
	add(splitted("VHconc", concP(check, 2, 1, 1, 0, tall, sch1), "opsA0", "keysA"))
	add(splitted("VHconc", concP(check, 3, 1, 1, 0, low3, sch1), "opsA0", "keysA", "keysB"))
	add(splitted("VHconc", concP(check, 2, 1, 2, 0, low, sch1), "opsA0", "opsB0", "keysA"))
	if t {
		add(splitted("VHconc", concP(check, 3, 1, 1, 0, low3, sch2), "opsA0", "keysA", "keysB"))
		add(splitted("VHconc", concP(check, 1, 1, 1, 0, low, sch4), "opsA0", "opsB0"))
		add(splitted("VHconc", concP(check, 2, 1, 1, 0, low, sch3), "opsA0", "opsB0", "keysA", "keysB"))
		add(splitted("VHconc", concP(check, 1, 2, 2, 0, 1, sch2), "opsA0", "opsB0"))
		add(splitted("VHconc", concP(check, 1, 1, 1, 1, low, sch5), "opsA0", "opsB0"))
		add(splitted("VHconc", concP(check, 2, 1, 1, 0, tall, sch2), "opsA0", "keysA"))
		add(splitted("VHconc", concP(check, 2, 1, 1, 0, big, sch1), "opsA0", "keysA"))
		add(splitted("VHconc", concP(check, 2, 1, 1, 1, low, sch5).with("keysA", 1), "opsA0", "opsB0", "keysB", "keysC"))
	}
	return js
}

// probed makes each scenario go on to delete every key and add it again.
func probed(js []*Job) []*Job {
	for _, j := range js {
		j.Params["post"] = "1"
	}
	return js
}

// aged starts each scenario from a map with a past: other keys of all heights have come and gone,
// and a symbolic subset of the keys has been stored and deleted before.
func aged(js []*Job) []*Job {
	for _, j := range js {
		j.Params["ghost"], j.Params["crowd"] = "1", "7"
	}
	return js
}

func seqP(nkeys, na, levels int, ops int) pm {
	p := P("nkeys", nkeys, "na", na, "levels", levels, "keysA", 1<<nkeys-1)
	for i := 0; i < na; i++ {
		p["opsA"+fmt.Sprint(i)] = fmt.Sprint(ops)
	}
	return p
}

var seqKinds = []string{"assert", "panic", "deadlock", "livelock"}
var intInsts = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "string"}
var valueTypes = []string{"int", "uint8", "bool", "float64", "string", "empty", "array", "pointer", "struct", "interface", "error", "slice", "func", "big", "float32", "int16", "uint32", "two"}

var specs = map[string]*spec{
	"C01": {
		kinds: seqKinds,
		each: func(t bool) []*Job {
			return []*Job{job("VHseq", seqP(2, 1, low, 255)), job("VHcrowd", seqP(1, 1, low, oPoint).with("crowd", 48, "keep", 0))}
		},
		jobs: func(t bool) []*Job {
			js := splitted("VHseq", seqP(3, 2, low3, 255), "opsA0")
			js = append(js, splitted("VHcrowd", seqP(1, 1, 1, oPoint).with("crowd", 81, "keep", 33), "opsA0")...)
			js = append(js, splitted("VHcrowd", seqP(2, 1, 1|32, oPoint).with("crowd", 21, "keep", 9), "opsA0")...)
			js = append(js, aged(splitted("VHseq", seqP(2, 2, low, 255), "opsA0"))...)
			js = append(js, aged(splitted("VHseq", seqP(3, 1, big, 255), "opsA0"))...)
			js = append(js, splitted("VHseq", seqP(4, 1, low3, 255), "opsA0")...)
			js = append(js, splitted("VHseq", seqP(2, 3, low, 255), "opsA0")...)
			js = append(js, splitted("VHseq", seqP(2, 2, tall, 255), "opsA0")...)
			js = append(js, splitted("VHseq", seqP(2, 2, big, 255), "opsA0")...)
			js = append(js, splitted("VHseq", seqP(1, 3, big, 255), "opsA0")...)
			if t {
				js = append(js, splitted("VHseq", seqP(2, 4, low, 255), "opsA0", "opsA1")...)
				js = append(js, splitted("VHseq", seqP(3, 3, low3, 255), "opsA0", "opsA1")...)
				js = append(js, splitted("VHseq", seqP(4, 2, low3, 255), "opsA0", "opsA1")...)
				js = append(js, splitted("VHseq", seqP(5, 1, low3, 255), "opsA0", "keysA")...)
				js = append(js, splitted("VHseq", seqP(2, 3, tall, 255), "opsA0")...)
			}
			return js
		},
	},
	"C02": {
		kinds: seqKinds,
		jobs:  func(t bool) []*Job { return probed(concJobs("lin", t)) },
	},
	"C03": {
		kinds: []string{"assert", "panic"},
		jobs: func(t bool) []*Job {
			rng := func(nkeys, nb, stop, levels int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "nb", nb, "stop", stop, "levels", levels, "sched", sched, "keysB", 1<<nkeys-1, "nP", 0, "nQ", 0)
				for i := 0; i < nb; i++ {
					p["opsB"+fmt.Sprint(i)] = fmt.Sprint(oPoint)
				}
				return splitted("VHrng", p, split...)
			}
			around := func(nkeys, nP, nQ, nb, levels int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "nb", nb, "stop", 0, "levels", levels, "sched", sched, "nP", nP, "nQ", nQ)
				for x, k := range map[string]int{"P": nP, "Q": nQ, "B": nb} {
					p["keys"+x] = fmt.Sprint(1<<nkeys - 1)
					for i := 0; i < k; i++ {
						p["ops"+x+fmt.Sprint(i)] = fmt.Sprint(oPoint)
					}
				}
				return splitted("VHrng", p, split...)
			}
			js := rng(2, 1, 0, low, sch2, "opsB0")
			js = append(js, aged(rng(2, 1, 0, low, sch2, "opsB0"))...)
			js = append(js, rng(3, 1, 0, low, sch2, "opsB0")...)
			js = append(js, rng(2, 2, 0, low, sch1, "opsB0")...)
			js = append(js, rng(3, 2, 0, low, sch1, "opsB0")...)
			js = append(js, rng(3, 1, 2, low, sch1, "opsB0")...)
			js = append(js, rng(2, 2, 0, low, sch3, "opsB0")...)
			js = append(js, rng(4, 1, 0, low3, sch1, "opsB0")...)
			js = append(js, rng(2, 1, 0, tall, sch2, "opsB0")...)
			js = append(js, around(1, 1, 1, 1, low, "01ab", "opsB0")...)
			js = append(js, around(2, 1, 1, 1, low, "1ab", "opsB0", "opsP0")...)
			js = append(js, around(1, 1, 1, 2, low, "1ab", "opsB0")...)
			if t {
				js = append(js, around(1, 1, 1, 1, low, "0101ab", "opsB0", "opsP0")...)
				js = append(js, around(2, 1, 1, 2, low, "1ab", "opsB0", "opsB1", "keysP")...)
				js = append(js, around(2, 1, 1, 1, tall, "0101ab", "opsB0", "opsP0")...)
				js = append(js, around(3, 2, 1, 2, low3, "101ab", "opsB0", "opsB1", "keysP")...)
				js = append(js, rng(3, 2, 0, low3, sch3, "opsB0", "opsB1")...)
				js = append(js, rng(3, 3, 0, low, sch1, "opsB0", "opsB1")...)
				js = append(js, rng(4, 2, 0, low, sch1, "opsB0", "opsB1")...)
				js = append(js, rng(4, 1, 3, low3, sch2, "opsB0")...)
				js = append(js, rng(2, 3, 0, low, sch4, "opsB0", "opsB1")...)
			}
			return js
		},
	},
	"C04": {
		kinds: []string{"assert", "panic"},
		jobs: func(t bool) []*Job {
			lenc := func(nkeys, na, nb, levels int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "na", na, "nb", nb, "levels", levels, "sched", sched, "keysA", 1<<nkeys-1, "keysB", 1<<nkeys-1)
				for i := 0; i < na; i++ {
					p["opsA"+fmt.Sprint(i)] = fmt.Sprint(oPoint)
				}
				for i := 0; i < nb; i++ {
					p["opsB"+fmt.Sprint(i)] = fmt.Sprint(oPoint)
				}
				return splitted("VHlenc", p, split...)
			}
			js := lenc(1, 1, 1, low, "021bac", "opsA0")
			js = append(js, aged(lenc(1, 1, 1, low, "021bac", "opsA0"))...)
			js = append(js, lenc(2, 2, 0, low, "01ab", "opsA0")...)
			js = append(js, lenc(2, 2, 0, low, "1ab", "opsA0")...)
			js = append(js, lenc(1, 2, 0, low, "010a", "opsA0")...)
			js = append(js, lenc(2, 1, 1, low, "021bac", "opsA0", "opsB0")...)
			js = append(js, lenc(1, 2, 1, 1, "021bac", "opsA0")...)
			js = append(js, lenc(1, 1, 2, 1, "021bac", "opsA0")...)
			js = append(js, lenc(1, 1, 1, low, "0202bac", "opsA0")...)
			js = append(js, splitted("VHconc", concP("final", 2, 1, 1, 0, low, sch2), "opsA0", "keysA")...)
			js = append(js, splitted("VHconc", concP("final", 1, 1, 1, 1, 1, sch5), "opsA0")...)
			js = append(js, splitted("VHconc", concP("final", 2, 1, 1, 0, tall, sch1), "opsA0")...)
			if t {
				js = append(js, lenc(2, 2, 1, low, "021bac", "opsA0", "opsB0", "keysB")...)
				js = append(js, lenc(1, 2, 2, low, "0202bac", "opsA0", "opsB0")...)
				js = append(js, lenc(2, 1, 1, low, "02021bac", "opsA0", "opsB0", "keysA")...)
				js = append(js, splitted("VHconc", concP("final", 3, 1, 1, 0, low3, sch2), "opsA0", "keysA", "keysB")...)
				js = append(js, splitted("VHconc", concP("final", 2, 1, 1, 1, low, sch5), "opsA0", "opsB0", "keysA", "keysB")...)
				js = append(js, splitted("VHconc", concP("final", 2, 2, 1, 0, low, sch2), "opsA0", "opsB0", "keysA")...)
			}
			return js
		},
	},
	"C05": {
		kinds: []string{"deadlock", "livelock"},
		jobs: func(t bool) []*Job {
			w := func(p pm) pm {
				for k := range p {
					if len(k) > 4 && k[:3] == "ops" {
						p[k] = fmt.Sprint(oWrite)
					}
				}
				return p
			}
			js := splitted("VHconc", w(concP("none", 1, 1, 1, 0, low, sch2)), "opsA0")
			js = append(js, aged(splitted("VHconc", w(concP("none", 2, 1, 1, 0, low, sch1)), "opsA0"))...)
			js = append(js, splitted("VHconc", w(concP("none", 2, 1, 1, 0, low, sch2)), "opsA0", "keysA", "keysB")...)
			js = append(js, splitted("VHconc", w(concP("none", 3, 1, 1, 0, low, sch2)), "opsA0", "keysA", "keysB")...)
			some := oI | oX
			if t {
				some = oWrite
			}
			js = append(js, splitted("VHconc", w(concP("none", 2, 1, 1, 1, low, sch5)).with("opsA0", some), "opsA0", "opsB0", "keysA")...)
			js = append(js, splitted("VHconc", w(concP("none", 2, 2, 1, 0, low, sch1)).with("opsA0", some), "opsA0", "keysA")...)
			js = append(js, splitted("VHconc", w(concP("none", 2, 1, 2, 0, low, sch1)).with("opsA0", some), "opsA0", "keysA")...)
			js = append(js, splitted("VHconc", w(concP("none", 2, 1, 1, 0, tall, sch1)), "opsA0", "keysA")...)
			js = append(js, splitted("VHconc", concP("none", 1, 1, 1, 0, low, sch3), "opsA0")...)
			js = append(js, splitted("VHconc", w(concP("none", 2, 1, 1, 0, big, sch1)), "opsA0", "keysA")...)
			if t {
				js = append(js, splitted("VHconc", w(concP("none", 3, 1, 1, 0, low3, sch2)), "opsA0", "opsB0", "keysA", "keysB")...)
				js = append(js, splitted("VHconc", w(concP("none", 3, 1, 1, 1, low, sch5)), "opsA0", "opsB0", "opsC0", "keysA")...)
				js = append(js, splitted("VHconc", w(concP("none", 2, 2, 2, 0, low, sch2)), "opsA0", "opsB0", "keysA", "keysB")...)
				js = append(js, splitted("VHconc", w(concP("none", 2, 1, 1, 0, low, sch4)), "opsA0", "opsB0", "keysA", "keysB")...)
				js = append(js, splitted("VHconc", w(concP("none", 2, 1, 1, 0, tall, sch2)), "opsA0", "keysA", "keysB")...)
			}
			return probed(js)
		},
	},
	"C06": {
		kinds: []string{"blocked", "livelock"},
		jobs: func(t bool) []*Job {
			st := func(nkeys, nA, nB, nR, levels int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "nA", nA, "nB", nB, "nR", nR, "levels", levels, "sched", sched)
				for x, n := range map[string]int{"A": nA, "B": nB} {
					p["keys"+x] = fmt.Sprint(1<<nkeys - 1)
					for i := 0; i < n; i++ {
						p["ops"+x+fmt.Sprint(i)] = fmt.Sprint(oWrite)
					}
				}
				p["keysR"] = fmt.Sprint(1<<nkeys - 1)
				for i := 0; i < nR; i++ {
					p["opsR"+fmt.Sprint(i)] = fmt.Sprint(oRead)
				}
				return splitted("VHstall", p, split...)
			}
			js := st(2, 1, 0, 1, low, "0b", "opsR0")
			js = append(js, aged(st(2, 1, 0, 1, low, "0b", "opsR0"))...)
			js = append(js, st(3, 1, 0, 1, low, "0b", "opsR0")...)
			js = append(js, st(1, 2, 0, 2, low, "0b", "opsR0")...)
			js = append(js, st(2, 1, 1, 1, low, "01c", "opsR0", "opsA0")...)
			js = append(js, st(2, 1, 0, 1, low, "10b", "opsR0")...)
			js = append(js, st(1, 1, 0, 1, top, "0b", "opsR0")...)
			js = append(js, st(2, 2, 0, 1, low, "0b", "opsR0", "opsA0")...)
			js = append(js, st(3, 1, 1, 1, low3, "01c", "opsR0", "opsA0", "opsB0")...)
			js = append(js, st(3, 2, 0, 1, low3, "10b", "opsR0", "opsA0")...)
			if t {
				js = append(js, st(2, 2, 1, 2, low, "0102c", "opsR0", "opsA0", "opsB0")...)
				js = append(js, st(3, 3, 0, 1, low, "0b", "opsR0", "opsA0")...)
			}
			return js
		},
	},
	"C07": {
		kinds: []string{"race"}, race: true,
		each: func(t bool) []*Job {
			p := P("nkeys", 1, "na", 1, "nb", 1, "nc", 0, "levels", low, "sched", "0bab", "opsA0", 255, "opsB0", 255, "keysA", 1, "keysB", 1)
			return []*Job{job("VHrace", p)}
		},
		jobs: func(t bool) []*Job {
			rc := func(nkeys, na, nb, nc, levels int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "na", na, "nb", nb, "nc", nc, "levels", levels, "sched", sched)
				for x, n := range map[string]int{"A": na, "B": nb, "C": nc} {
					p["keys"+x] = fmt.Sprint(1<<nkeys - 1)
					for i := 0; i < n; i++ {
						p["ops"+x+fmt.Sprint(i)] = "255"
					}
				}
				return splitted("VHrace", p, split...)
			}
			js := rc(2, 1, 1, 0, low, sch1, "opsA0")
			js = append(js, aged(rc(1, 1, 1, 0, low, sch1, "opsA0"))...)
			js = append(js, rc(1, 1, 1, 0, low, sch2, "opsA0")...)
			js = append(js, rc(1, 1, 1, 0, top, sch1, "opsA0")...)
			js = append(js, rc(2, 1, 1, 0, big, sch1, "opsA0")...)
			js = append(js, rc(2, 2, 1, 0, low, sch1, "opsA0")...)
			js = append(js, rc(1, 1, 1, 1, 1, sch5, "opsA0")...)
			if t {
				js = append(js, rc(2, 1, 1, 0, low, sch2, "opsA0", "opsB0")...)
				js = append(js, rc(3, 1, 1, 0, low3, sch1, "opsA0", "opsB0")...)
				js = append(js, rc(2, 2, 1, 0, big, sch1, "opsA0")...)
				js = append(js, rc(2, 1, 1, 1, low, sch5, "opsA0", "opsB0")...)
				js = append(js, rc(2, 1, 1, 0, low, sch3, "opsA0", "opsB0")...)
			}
			return js
		},
	},
	"C08": {
		kinds: []string{"assert", "panic"},
		each: func(t bool) []*Job {
			return []*Job{job("VHseq", seqP(2, 1, low, oZ))}
		},
		jobs: func(t bool) []*Job {
			// at least one of the calls is lazy
			lz := func(nkeys, na, nb, nc, levels int, sched string, who string, split ...string) []*Job {
				p := concP("lazy", nkeys, na, nb, nc, levels, sched)
				p["ops"+who] = fmt.Sprint(oZ)
				return splitted("VHconc", p, split...)
			}
			var js []*Job
			js = append(js, lz(1, 1, 1, 0, low, sch2, "A0", "opsB0")...)
			js = append(js, lz(1, 1, 1, 0, low, sch2, "B0", "opsA0")...)
			js = append(js, aged(lz(2, 1, 1, 0, low, sch1, "A0", "opsB0"))...)
			js = append(js, aged(lz(1, 1, 1, 0, low, sch2, "B0", "opsA0"))...)
			js = append(js, lz(2, 1, 1, 0, low, sch2, "A0", "opsB0", "keysA")...)
			js = append(js, lz(2, 1, 1, 0, low, sch2, "B0", "opsA0", "keysA")...)
			js = append(js, lz(2, 1, 2, 0, low, sch1, "A0", "opsB0", "keysA")...)
			js = append(js, lz(1, 1, 1, 1, low, sch5, "A0", "opsB0")...)
			js = append(js, lz(1, 1, 1, 1, low, sch5, "B0", "opsA0")...)
			js = append(js, lz(1, 1, 1, 0, low, sch4, "A0", "opsB0")...)
			js = append(js, lz(2, 1, 1, 0, tall, sch1, "A0", "opsB0")...)
			js = append(js, lz(3, 1, 1, 0, low3, sch1, "A0", "keysA", "keysB")...)
			if t {
				js = append(js, lz(3, 1, 1, 0, low3, sch2, "A0", "opsB0", "keysA", "keysB")...)
				js = append(js, lz(3, 1, 1, 0, low3, sch2, "B0", "opsA0", "keysA", "keysB")...)
				js = append(js, lz(2, 1, 1, 0, low, sch4, "A0", "opsB0", "keysA", "keysB")...)
				js = append(js, lz(2, 1, 1, 1, low, sch5, "A0", "opsB0", "opsC0", "keysA")...)
				js = append(js, lz(2, 2, 2, 0, low, sch2, "A0", "opsB0", "opsA1", "keysA")...)
				js = append(js, lz(2, 1, 3, 0, low, sch1, "A0", "opsB0", "opsB1", "keysA")...)
				js = append(js, lz(2, 1, 1, 0, big, sch2, "A0", "opsB0", "keysA")...)
			}
			return js
		},
	},
	"C09": {
		kinds: seqKinds,
		each: func(t bool) []*Job {
			var js []*Job
			ks := func(n, probes, del, str int) *Job {
				j := job("VHkeys", P("nkeys", n, "probes", probes, "del", del, "levels", low, "inst", "int", "put", 0))
				j.StrMax = str
				return j
			}
			put := func(j *Job, put, del int) *Job {
				j.Params["put"], j.Params["del"] = fmt.Sprint(put), fmt.Sprint(del)
				return j
			}
			js = append(js, ks(3, 1, 0, 8), ks(2, 0, 1, 8), ks(3, 1, 0, 20), ks(2, 0, 1, 40), ks(2, 0, 0, 62))
			// opLOS and LoadAndDelete, opLazy and LoadAndDelete
			js = append(js, put(ks(2, 1, 0, 20), 3, 0), put(ks(2, 0, 0, 40), 3, 2), put(ks(2, 1, 0, 20), 4, 0), put(ks(2, 1, 0, 20), 0, 2))
			if t {
				js = append(js, ks(2, 1, 0, 40), ks(2, 0, 1, 40), ks(4, 1, 0, 6), ks(3, 0, 1, 6), ks(4, 2, 0, 12))
			}
			return js
		},
		fixed: func(t bool) []*Job {
			var js []*Job
			for _, v := range []string{"ordered", "ordereddesc"} {
				for _, in := range intInsts {
					js = append(js, job("VHkeys", P("variant", v, "nkeys", 3, "probes", 1, "del", 0, "levels", low, "inst", in, "put", 0)))
					js = append(js, job("VHkeys", P("variant", v, "nkeys", 2, "probes", 0, "del", 1, "levels", low, "inst", in, "put", 0)))
					if t {
						js = append(js, job("VHkeys", P("variant", v, "nkeys", 3, "probes", 0, "del", 1, "levels", low, "inst", in, "put", 0)))
						js = append(js, job("VHkeys", P("variant", v, "nkeys", 4, "probes", 1, "del", 0, "levels", low, "inst", in, "put", 0)))
					}
				}
			}
			return js
		},
	},
	"C10": {
		kinds: seqKinds,
		jobs: func(t bool) []*Job {
			// every random sequence up to 20 draws (an endless sequence of zeros has probability zero
			// and is not counted as a livelock)
			js := []*Job{job("VHseq", seqP(1, 1, 0, 255))}
			w := job("VHseq", seqP(1, 1, 0, 255))
			w.Wide = true
			js = append(js, w)
			js = append(js, splitted("VHseq", seqP(2, 1, 0, 255), "opsA0", "keysA")...)
			for _, j := range js {
				j.Kinds = map[string]bool{"assert": true, "panic": true, "deadlock": true}
			}
			for _, m := range []int{tall, big, 8 | 16, 1 | 1<<15, 16 | 1<<15, 1<<14 | 1<<15, 1 | 4 | 8} {
				js = append(js, splitted("VHseq", seqP(2, 2, m, 255), "opsA0")...)
			}
			js = append(js, aged(splitted("VHseq", seqP(2, 2, tall, 255), "opsA0"))...)
			for _, m := range []int{1 | 8 | 16, 1 | 4 | 32} {
				js = append(js, splitted("VHseq", seqP(3, 1, m, 255), "opsA0")...)
			}
			for _, m := range []int{tall, big, 8 | 32} {
				js = append(js, probed(splitted("VHconc", concP("lin", 2, 1, 1, 0, m, sch1), "opsA0", "keysA"))...)
			}
			if t {
				for _, m := range []int{1 | 2 | 4 | 8 | 16 | 32, 1 | 8 | 1<<15, 2 | 16 | 1<<10} {
					js = append(js, splitted("VHseq", seqP(3, 2, m, 255), "opsA0", "opsA1")...)
				}
				js = append(js, probed(splitted("VHconc", concP("lin", 2, 1, 1, 0, top, sch1), "opsA0", "keysA", "keysB"))...)
				js = append(js, probed(splitted("VHconc", concP("lin", 2, 1, 1, 0, 8|32, sch2), "opsA0", "keysA", "keysB"))...)
			}
			return js
		},
	},
	"C11": {
		kinds: seqKinds,
		jobs: func(t bool) []*Job {
			re := func(outer string, nkeys, na, visits, every, self, levels, ops int, split ...string) []*Job {
				p := seqP(nkeys, na, levels, ops).with("outer", outer, "visits", visits, "every", every, "self", self, "keysL", 1<<nkeys-1)
				return splitted("VHreent", p, split...)
			}
			js := re("range", 3, 1, 3, 0, 0, low, 255, "opsA0")
			js = append(js, aged(re("range", 2, 1, 2, 0, 0, low, 255, "opsA0"))...)
			js = append(js, re("range", 2, 2, 2, 0, 0, low, 255, "opsA0")...)
			js = append(js, re("range", 3, 1, 1, 1, 1, low, 255, "opsA0")...)
			js = append(js, re("range", 2, 2, 1, 1, 1, low, 255, "opsA0")...)
			js = append(js, re("range", 2, 1, 1, 1, 0, tall, 255, "opsA0")...)
			js = append(js, re("lazy", 2, 1, 1, 0, 0, low, oRead, "opsA0")...)
			js = append(js, re("lazy", 2, 2, 1, 0, 0, low, oRead, "opsA0")...)
			js = append(js, re("lazy", 3, 1, 1, 0, 0, low3, oRead, "opsA0")...)
			if t {
				js = append(js, re("range", 4, 1, 4, 0, 0, low3, 255, "opsA0")...)
				js = append(js, re("range", 3, 2, 3, 0, 0, low, 255, "opsA0", "opsA1")...)
				js = append(js, re("range", 3, 2, 1, 1, 1, low, 255, "opsA0", "opsA1")...)
				js = append(js, re("range", 3, 1, 1, 1, 0, low3, 255, "opsA0")...)
				js = append(js, re("lazy", 4, 2, 1, 0, 0, low3, oRead, "opsA0")...)
				js = append(js, re("lazy", 2, 1, 1, 0, 0, top, oRead, "opsA0")...)
			}
			return js
		},
	},
	"C12": {
		kinds: seqKinds,
		jobs: func(t bool) []*Job {
			var js []*Job
			add := func(x []*Job) { js = append(js, x...) }
			add(splitted("VHconc", concP("win", 1, 1, 1, 0, low, sch2), "opsA0"))
			add(aged(splitted("VHconc", concP("win", 1, 1, 1, 0, low, sch2), "opsA0")))
			add(splitted("VHconc", concP("win", 1, 1, 1, 1, low, sch5), "opsA0", "opsB0"))
			add(splitted("VHconc", concP("win", 2, 1, 1, 0, low, sch2), "opsA0", "keysA", "keysB"))
			add(splitted("VHconc", concP("win", 1, 2, 1, 0, low, sch1), "opsA0"))
			add(splitted("VHconc", concP("win", 1, 1, 2, 0, low, sch1), "opsA0"))
			add(splitted("VHconc", concP("win", 1, 1, 1, 0, low, sch4), "opsA0"))
			add(splitted("VHconc", concP("win", 2, 1, 1, 0, tall, sch1), "opsA0", "keysA"))
			add(splitted("VHconc", concP("win", 3, 1, 1, 0, low3, sch1), "opsA0", "keysA", "keysB"))
			if t {
				add(splitted("VHconc", concP("win", 2, 1, 1, 1, low, sch5), "opsA0", "opsB0", "keysA", "keysB"))
				add(splitted("VHconc", concP("win", 3, 1, 1, 0, low3, sch2), "opsA0", "keysA", "keysB"))
				add(splitted("VHconc", concP("win", 2, 2, 2, 0, low, sch1), "opsA0", "opsB0", "keysA", "keysB"))
				add(splitted("VHconc", concP("win", 1, 2, 2, 0, low, sch2), "opsA0", "opsB0"))
				add(splitted("VHconc", concP("win", 1, 1, 1, 1, low, "012cabcab"), "opsA0", "opsB0", "opsC0"))
			}
			return probed(js)
		},
	},
	"C13": {
		kinds: append([]string{"race"}, seqKinds...),
		each: func(t bool) []*Job {
			var js []*Job
			for _, v := range valueTypes {
				js = append(js, job("VHval", P("value", v, "levels", 1)))
			}
			return js
		},
		jobs: func(t bool) []*Job {
			var js []*Job
			for _, shape := range []string{"three", "two"} {
				for _, sc := range []string{sch1, sch2} {
					p := P("shape", shape, "levels", low, "sched", sc, "opsA", 0x7f&^oX, "opsB", 0x7f&^oX)
					js = append(js, splitted("VHwide", p, "opsA")...)
					for _, j := range splitted("VHwide", p, "opsA") {
						j.Race = true
						js = append(js, j)
					}
				}
			}
			if t {
				for _, sc := range []string{sch3, sch4} {
					js = append(js, splitted("VHwide", P("shape", "three", "levels", tall, "sched", sc, "opsA", 0x7f&^oX, "opsB", 0x7f&^oX), "opsA", "opsB")...)
				}
			}
			return js
		},
	},
	"C14": {
		kinds: seqKinds,
		jobs: func(t bool) []*Job {
			in := func(nkeys, na, nb, levels int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "na", na, "nb", nb, "levels", levels, "sched", sched, "keysA", 1<<nkeys-1, "keysB", 1<<nkeys-1)
				ops := 255
				if sched != "" {
					ops = oPoint
				}
				for i := 0; i < na; i++ {
					p["opsA"+fmt.Sprint(i)] = fmt.Sprint(ops)
				}
				for i := 0; i < nb; i++ {
					p["opsB"+fmt.Sprint(i)] = fmt.Sprint(ops)
				}
				return splitted("VHindep", p, split...)
			}
			cross := func(other string, nkeys, na, nb, levels int, sched string, split ...string) []*Job {
				js := in(nkeys, na, nb, levels, sched, split...)
				for _, j := range js {
					j.Entry = "VHcross"
					j.Params["other"] = other
				}
				return js
			}
			js := in(2, 1, 1, low, "", "opsA0")
			for _, o := range []string{"func", "int64desc", "string"} {
				js = append(js, cross(o, 1, 2, 2, low, "", "opsA0")...)
				js = append(js, cross(o, 1, 1, 1, low, sch2, "opsA0")...)
				js = append(js, cross(o, 2, 1, 1, big, "", "opsA0")...)
			}
			nest := func(other, outer string, nkeys, nb, levels int) {
				p := P("other", other, "outer", outer, "nkeys", nkeys, "nb", nb, "levels", levels, "keysB", 1<<nkeys-1)
				for i := 0; i < nb; i++ {
					p["opsB"+fmt.Sprint(i)] = "255"
				}
				js = append(js, splitted("VHnest", p, "opsB0")...)
			}
			for _, outer := range []string{"range", "lazy"} {
				nest("", outer, 2, 1, low)
				nest("", outer, 1, 2, low)
				nest("func", outer, 1, 1, low)
				nest("int64desc", outer, 1, 2, low)
				if t {
					nest("", outer, 2, 2, low)
					nest("string", outer, 2, 2, low)
				}
			}
			// calls on a second map of the same type after or inside calls on the first
			two := func(p pm) pm {
				nk := p["nkeys"]
				n := 1
				fmt.Sscan(nk, &n)
				return p.with("nD", 1, "opsD0", oPoint, "keysD", 1<<n-1)
			}
			mix := func(nkeys, levels int, sched string) {
				p := P("nkeys", nkeys, "na", 1, "nb", 1, "levels", levels, "sched", sched, "check", "lin", "nc", 0, "post", 0, "keysA", 1<<nkeys-1, "keysB", 1<<nkeys-1, "opsA0", oPoint, "opsB0", oPoint)
				js = append(js, splitted("VHconc", two(p), "opsA0")...)
				p = P("nkeys", nkeys, "nb", 1, "stop", 0, "levels", levels, "sched", sched, "keysB", 1<<nkeys-1, "nP", 0, "nQ", 0, "opsB0", oPoint)
				js = append(js, splitted("VHrng", two(p), "opsB0")...)
			}
			mix(1, low, sch1)
			mix(2, low, sch1)
			mix(1, low, sch2)
			mix(2, big, sch1)
			js = append(js, splitted("VHreent", two(seqP(2, 1, low, 255).with("outer", "range", "visits", 2, "every", 0, "self", 0)), "opsA0")...)
			js = append(js, splitted("VHreent", two(seqP(3, 1, 1, 255).with("outer", "range", "visits", 1, "every", 1, "self", 1)), "opsA0")...)
			if t {
				mix(2, low, sch2)
				mix(1, low, sch3)
				mix(3, low, sch1)
			}
			js = append(js, in(2, 2, 1, low, "", "opsA0")...)
			js = append(js, in(1, 1, 1, low, sch2, "opsA0")...)
			js = append(js, in(2, 1, 1, low, sch1, "opsA0")...)
			js = append(js, in(1, 1, 1, big, "", "opsA0")...)
			js = append(js, in(1, 2, 1, low, sch1, "opsA0")...)
			if t {
				js = append(js, in(3, 1, 1, low3, "", "opsA0", "opsB0")...)
				js = append(js, in(2, 2, 2, low, "", "opsA0", "opsB0")...)
				js = append(js, in(2, 1, 1, low, sch3, "opsA0", "opsB0")...)
				js = append(js, in(2, 2, 1, low, sch2, "opsA0", "opsB0")...)
			}
			return js
		},
	},
	"C15": {
		kinds: seqKinds,
		fixed: func(t bool) []*Job {
			sw := func(nkeys, na, levels int, split ...string) []*Job {
				p := P("variant", "func", "nkeys", nkeys, "na", na, "levels", levels)
				for i := 0; i < na; i++ {
					p["ops"+fmt.Sprint(i)] = fmt.Sprint(oPoint)
				}
				return splitted("VHswo", p, split...)
			}
			js := sw(2, 3, low, "ops0")
			js = append(js, sw(3, 2, low, "ops0")...)
			js = append(js, sw(3, 3, low, "ops0", "ops1")...)
			js = append(js, sw(2, 2, tall, "ops0")...)
			for _, in := range []string{"slice", "func", "pointer", "interface", "struct", "string", "float", "array"} {
				na, lv := 3, low
				if t {
					na, lv = 4, tall
				}
				js = append(js, job("VHexo", P("variant", "func", "inst", in, "na", na, "levels", lv, "ops", oPoint)))
			}
			swc := func(nkeys, na, nb, levels int, sched string, split ...string) {
				p := concP("lin", nkeys, na, nb, 0, levels, sched).with("variant", "func")
				js = append(js, splitted("VHswoc", p, split...)...)
			}
			swc(2, 1, 1, low, sch1, "opsA0")
			swc(2, 1, 1, 1, sch2, "opsA0", "keysA")
			if t {
				swc(2, 1, 1, low, sch2, "opsA0")
				swc(2, 2, 1, 1, sch1, "opsA0", "opsA1")
				swc(3, 1, 1, low, sch1, "opsA0", "opsB0")
				swc(2, 2, 1, low, sch2, "opsA0", "opsA1")
				swc(3, 1, 1, low, sch2, "opsA0", "opsB0", "keysA")
				swc(2, 1, 1, tall, sch3, "opsA0", "opsB0")
			}
			if t {
				js = append(js, sw(3, 4, low, "ops0", "ops1", "ops2")...)
				js = append(js, sw(4, 3, low, "ops0", "ops1")...)
			}
			return js
		},
	},
	"C16": {
		kinds: seqKinds,
		jobs: func(t bool) []*Job {
			pn := func(where, how string, nkeys, na, nb, levels int, sched string, split ...string) []*Job {
				p := P("where", where, "how", how, "nkeys", nkeys, "na", na, "nb", nb, "levels", levels, "sched", sched, "keysA", 1<<nkeys-1, "keysB", 1<<nkeys-1, "keysP", 1<<nkeys-1)
				for i := 0; i < na; i++ {
					p["opsA"+fmt.Sprint(i)] = "255"
				}
				for i := 0; i < nb; i++ {
					p["opsB"+fmt.Sprint(i)] = fmt.Sprint(oPoint)
				}
				return splitted("VHpan", p, split...)
			}
			var js []*Job
			for _, w := range []string{"lazy", "range"} {
				for _, h := range []string{"panic", "goexit"} {
					js = append(js, pn(w, h, 2, 1, 0, low, "", "opsA0")...)
					js = append(js, aged(pn(w, h, 2, 1, 0, low, "", "opsA0"))...)
					js = append(js, pn(w, h, 2, 0, 1, low, sch1, "opsB0")...)
					js = append(js, pn(w, h, 3, 1, 0, low3, "", "opsA0")...)
					js = append(js, pn(w, h, 1, 1, 0, big, "", "opsA0")...)
				}
			}
			if t {
				for _, w := range []string{"lazy", "range"} {
					for _, h := range []string{"panic", "goexit"} {
						js = append(js, pn(w, h, 2, 1, 1, low, sch2, "opsB0", "opsA0")...)
						js = append(js, pn(w, h, 3, 2, 0, low, "", "opsA0", "opsA1")...)
						js = append(js, pn(w, h, 2, 0, 2, low, sch1, "opsB0")...)
					}
				}
			}
			return js
		},
	},
	"C18": {
		kinds: []string{"assert", "panic", "livelock"},
		jobs: func(t bool) []*Job {
			cost := func(n, past, stride, levels int) []*Job {
				return splitted("VHcost", P("crowd", n, "past", past, "stride", stride, "levels", levels, "opsA0", oPoint), "opsA0")
			}
			js := cost(200, 0, 1, low)
			js = append(js, cost(200, 12, 37, low)...)
			js = append(js, cost(200, 40, 199, tall)...)
			js = append(js, cost(64, 8, 63, 1|1<<15)...)
			js = append(js, cost(500, 9, 177, low)...)
			if t {
				js = append(js, cost(500, 60, 499, 1|2|8|1<<15)...)
				js = append(js, cost(1000, 20, 7, low)...)
				js = append(js, cost(2000, 0, 1999, low)...)
			}
			return js
		},
	},
	"C20": {
		kinds: []string{"blocked", "livelock"},
		jobs: func(t bool) []*Job {
			ap := func(nkeys, nA, nB, nR, keysA, keysB, keysR, opsR, must, absent, flat, levels, fresh int, sched string, split ...string) []*Job {
				p := P("nkeys", nkeys, "nA", nA, "nB", nB, "nR", nR, "levels", levels, "fresh", fresh, "sched", sched,
					"keysA", keysA, "keysB", keysB, "keysR", keysR, "must", must, "absent", absent, "flat", flat)
				for x, n := range map[string]int{"A": nA, "B": nB, "R": nR} {
					for i := 0; i < n; i++ {
						p["ops"+x+fmt.Sprint(i)] = fmt.Sprint(oWrite)
						if x == "R" {
							p["ops"+x+fmt.Sprint(i)] = fmt.Sprint(opsR)
						}
					}
				}
				return splitted("VHapart", p, split...)
			}
			put := oS | oI | oZ
			var js []*Job
			add := func(x []*Job) { js = append(js, x...) }
			// a key that is present between the two, towers of one node
			for _, k := range [][2]int{{1, 4}, {4, 1}} {
				add(ap(3, 1, 0, 1, k[0], 0, k[1], oWrite, 2, 0, 5, low, 1, "0b", "opsR0", "opsA0"))
				add(aged(ap(3, 1, 0, 1, k[0], 0, k[1], oWrite, 2, 0, 5, top, 1, "0b", "opsR0")))
				add(ap(3, 2, 0, 1, k[0], 0, k[1], oWrite, 2, 0, 5, low, 1, "0b", "opsR0"))
				add(ap(3, 1, 0, 2, k[0], 0, k[1], oWrite, 2, 0, 5, low, 1, "0b", "opsR0"))
				add(ap(3, 1, 0, 1, k[0], 0, k[1], oWrite, 2, 0, 5, low, 1, "10b", "opsR0"))
			}
			add(ap(5, 1, 0, 1, 2, 0, 8, oWrite, 4, 0, 10, low, 1, "0b", "opsR0"))
			add(ap(5, 1, 1, 1, 1, 16, 4, oWrite, 10, 0, 21, low, 1, "01c", "opsR0", "opsA0"))
			// overwriting a key, or finding it there, beside any call on its neighbours
			add(ap(2, 1, 0, 1, 2, 0, 1, put, 1, 0, 0, low, low, "0b", "opsR0"))
			add(ap(2, 1, 0, 1, 1, 0, 2, put, 2, 0, 0, low, low, "0b", "opsR0"))
			add(aged(ap(3, 1, 0, 1, 5, 0, 2, put, 2, 0, 0, low, low, "0b", "opsR0")))
			add(ap(3, 1, 0, 1, 5, 0, 2, put, 2, 0, 0, top, top, "0b", "opsR0"))
			add(ap(3, 1, 1, 1, 1, 4, 2, put, 2, 0, 0, low, low, "01c", "opsR0", "opsA0"))
			add(ap(3, 1, 0, 1, 5, 0, 2, put, 2, 0, 0, low, low, "10b", "opsR0"))
			// deleting an absent key
			add(ap(3, 1, 0, 1, 5, 0, 2, oDel, 0, 2, 0, low, low, "0b", "opsR0"))
			add(ap(3, 1, 1, 1, 1, 4, 2, oDel, 0, 2, 0, low, low, "01c", "opsR0", "opsA0"))
			add(ap(5, 2, 0, 2, 2, 0, 8, oWrite, 4, 0, 10, low3, 1, "10b", "opsR0", "opsA0"))
			add(ap(3, 2, 0, 1, 5, 0, 2, put, 2, 0, 0, low3, low3, "0b", "opsR0", "opsA0"))
			add(ap(3, 1, 1, 1, 5, 5, 2, put, 2, 0, 0, low3, low3, "01c", "opsR0", "opsA0"))
			add(ap(3, 1, 1, 1, 5, 5, 2, oDel, 0, 2, 0, low3, low3, "01c", "opsR0", "opsA0"))
			if t {
				add(ap(5, 1, 1, 1, 1, 16, 4, oWrite, 10, 0, 21, top, 1, "0101c", "opsR0", "opsA0", "opsB0"))
				add(ap(5, 2, 1, 1, 1, 16, 4, oWrite, 10, 0, 21, low, 1, "01c", "opsR0", "opsA0", "opsA1"))
				add(ap(5, 3, 0, 1, 2, 0, 8, oWrite, 4, 0, 10, low, 1, "0b", "opsR0", "opsA0", "opsA1"))
				add(ap(3, 2, 1, 2, 5, 5, 2, put, 2, 0, 0, low, low, "01c", "opsR0", "opsA0", "opsB0"))
				add(aged(ap(3, 2, 1, 1, 5, 5, 2, oDel, 0, 2, 0, low, low, "01c", "opsR0", "opsA0", "opsB0")))
			}
			return js
		},
	},
	"C21": {
		kinds: seqKinds,
		fixed: func(t bool) []*Job {
			cp := func(how string, nkeys, na, levels, max int, split ...string) []*Job {
				p := P("variant", "func", "how", how, "nkeys", nkeys, "na", na, "levels", levels, "max", max, "op", oPoint, "keysP", 1<<nkeys-1, "keysA", 1<<nkeys-1)
				for i := 0; i < na; i++ {
					p["opsA"+fmt.Sprint(i)] = "255"
				}
				return splitted("VHcmp", p, split...)
			}
			var js []*Job
			for _, h := range []string{"panic", "goexit"} {
				js = append(js, cp(h, 2, 1, low, 12, "op")...)
				js = append(js, aged(cp(h, 2, 0, low, 12, "op"))...)
				js = append(js, cp(h, 3, 0, low, 16, "op")...)
				js = append(js, cp(h, 1, 1, big, 8, "op")...)
				js = append(js, cp(h, 2, 0, top, 12, "op")...)
				js = append(js, cp(h, 4, 0, low, 24, "op")...)
				js = append(js, cp(h, 2, 2, low, 16, "op", "opsA0")...)
				if t {
					js = append(js, cp(h, 3, 1, low3, 24, "op", "opsA0")...)
					js = append(js, cp(h, 5, 0, low, 32, "op")...)
					js = append(js, cp(h, 3, 2, low, 24, "op", "opsA0", "opsA1")...)
				}
			}
			return js
		},
	},
	"C17": {
		kinds: []string{"assert", "panic"},
		each: func(t bool) []*Job {
			p := P("nkeys", 2, "na", 2, "nb", 0, "levels", low, "sched", "", "keysA", 1, "keysB", 1, "opsA0", oPoint, "opsA1", oPoint)
			return []*Job{job("VHleak", p)}
		},
		jobs: func(t bool) []*Job {
			var js []*Job
			lk := func(nkeys, na, nb, levels int, sched string, split ...string) {
				p := P("nkeys", nkeys, "na", na, "nb", nb, "levels", levels, "sched", sched)
				for x, k := range map[string]int{"A": na, "B": nb} {
					p["keys"+x] = fmt.Sprint(1<<nkeys - 1)
					for i := 0; i < k; i++ {
						p["ops"+x+fmt.Sprint(i)] = fmt.Sprint(oPoint)
					}
				}
				js = append(js, splitted("VHleak", p, split...)...)
			}
			lk(2, 2, 0, low, "")
			lk(3, 2, 0, low, "")
			lk(2, 2, 0, big, "", "opsA0")
			lk(2, 1, 1, low, sch1, "opsA0")
			lk(1, 1, 1, low, sch2, "opsA0")
			lk(3, 1, 1, low, sch1, "opsA0", "keysA")
			lk(2, 1, 1, tall, sch1, "opsA0")
			if t {
				lk(3, 3, 0, low3, "", "opsA0", "opsA1")
				lk(2, 1, 1, low, sch2, "opsA0", "opsB0")
				lk(3, 1, 1, low, sch2, "opsA0", "opsB0")
				lk(2, 1, 1, low, sch3, "opsA0", "opsB0")
				lk(2, 1, 1, big, sch2, "opsA0", "opsB0")
				lk(2, 1, 2, low, sch1, "opsA0", "opsB0")
			}
			return js
		},
	},
}

func init() {
	for id, s := range specs {
		s.id = id
		s.level = "model_checking"
	}
}
