package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	dir := flag.String("dir", "/repo", "")
	hd := flag.String("harness", "/verif/harness", "")
	entry := flag.String("entry", "VHconc", "")
	params := flag.String("p", "", "k=v,...")
	to := flag.Int("t", 120, "seconds")
	cpu := flag.String("cpuprofile", "", "")
	verb := flag.Bool("v", false, "")
	race := flag.Bool("race", false, "")
	cls := flag.Bool("classes", false, "")
	rep := flag.Bool("replay", false, "")
	wk := flag.Bool("worker", false, "")
	bn := flag.String("bench", "", "")
	th := flag.Bool("thorough", false, "")
	fl := flag.String("filter", "", "")
	va := flag.String("variant", "", "")
	flag.Parse()
	if flag.NArg() > 0 {
		root := os.Getenv("VERIF_ROOT")
		if root == "" {
			root = "/verif"
		}
		switch {
		case flag.Arg(0) == "replay" && flag.NArg() == 2:
			os.Exit(replayFile(root, *dir, flag.Arg(1)))
		case flag.Arg(0) == "check" && flag.NArg() == 3:
			os.Exit(check(root, *dir, flag.Arg(1), flag.Arg(2)))
		}
		fmt.Println("usage: engine check ID quick|thorough | replay FILE")
		os.Exit(2)
	}
	if *wk {
		workerMain(*dir, *hd)
		return
	}
	if *bn != "" {
		bench(*dir, *hd, *bn, *th, *fl, *to, *va)
		return
	}
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := loadProg(*dir, *hd)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t0))
	if *cls {
		debugClass = *verb
		for _, v := range allVariants {
			t1 := time.Now()
			d, fs, nq, err := p.classDigest(v)
			fmt.Println(v, d, len(fs), nq, err, time.Since(t1))
		}
		return
	}
	pm := map[string]string{}
	for _, kv := range strings.Split(*params, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			pm[k] = v
		}
	}
	r := runJob(p, &Job{Entry: *entry, Params: pm, Secs: *to, Race: *race, Verbose: *verb})
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	fmt.Printf("%s nodes=%d inputs=%d instrs=%d paths=%d vis=%d sat=%d(%v) simhits=%d mem=%dM\n", r.Verdict, r.Nodes, r.Inputs, r.Instrs, r.Paths, r.Vis, r.SatCalls, r.SatTime, r.SimHits, ms.Sys>>20)
	fmt.Printf("exec %v decide %v asserts %d\n", r.ExecTime, r.DecideTime, r.Asserts)
	for _, f := range r.Notes {
		fmt.Println("  ", f)
	}
	if *rep {
		rp := newReplayer(*dir, *hd, "/verif/native")
		defer rp.Close()
		for _, c := range r.Cex {
			o, err := rp.Run(c, *entry, pm, *race)
			fmt.Println("REPLAY", c.Kind, c.Label, "=>", o, err)
		}
	}
}

var allVariants = []string{"func", "ordered", "ordereddesc", "orderedfloat", "orderedstring", "string", "stringdesc", "float32", "float32desc", "float64", "float64desc", "int", "intdesc", "int64", "int64desc", "int32", "int32desc", "uint64", "uint64desc", "uint32", "uint32desc", "uint", "uintdesc"}
