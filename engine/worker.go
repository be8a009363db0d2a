package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"time"
)

// Jobs run in worker processes, so that one job's memory or crash does not touch another.

type workReq struct {
	ID  int
	Job *Job
}

type workRes struct {
	ID  int
	Res *Result
}

// workerMain reads jobs from standard input and answers on standard output.
func workerMain(dir, harness string) {
	p, err := loadProg(dir, harness)
	out := json.NewEncoder(os.Stdout)
	if err != nil {
		out.Encode(workRes{ID: -1, Res: &Result{Verdict: "error", Why: err.Error()}})
		os.Exit(2)
	}
	out.Encode(workRes{ID: -1, Res: &Result{Verdict: "ready"}})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	for {
		var q workReq
		if dec.Decode(&q) != nil {
			return
		}
		r := runJob(p, q.Job)
		r.Job = nil
		for _, cs := range [][]*Cex{r.Cex, r.Samples} {
			for _, c := range cs {
				c.Inputs = jsonInputs(c.Inputs)
			}
		}
		if err := out.Encode(workRes{q.ID, r}); err != nil {
			return
		}
	}
}

type worker struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out chan workRes
}

func startWorker(dir, harness string, limitMB int) (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(exe, "-worker", "-dir", dir, "-harness", harness)
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT="+strconv.Itoa(limitMB)+"MiB")
	c.Stderr = os.Stderr
	w, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	k := &worker{cmd: c, in: json.NewEncoder(w), out: make(chan workRes, 1)}
	go func() {
		dec := json.NewDecoder(bufio.NewReaderSize(r, 1<<20))
		dec.UseNumber()
		for {
			var x workRes
			if dec.Decode(&x) != nil {
				close(k.out)
				return
			}
			k.out <- x
		}
	}()
	select {
	case x, ok := <-k.out:
		if ok && x.Res.Verdict == "ready" {
			return k, nil
		}
		k.stop()
		if ok {
			return nil, fmt.Errorf("%s", x.Res.Why)
		}
		return nil, fmt.Errorf("worker did not start")
	case <-time.After(120 * time.Second):
		k.stop()
		return nil, fmt.Errorf("worker did not start in time")
	}
}

func (k *worker) stop() {
	k.cmd.Process.Kill()
	k.cmd.Wait()
}

// pool runs jobs on n workers in order; stop() gives up what is left.
type pool struct {
	dir, harness string
	n            int
	mu           sync.Mutex
	quit         chan struct{}
	once         sync.Once
	rss          int // limit per worker in MB
}

func (p *pool) stop() { p.once.Do(func() { close(p.quit) }) }

func rssMB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var a, c int
	fmt.Sscan(string(b), &a, &c)
	return c * os.Getpagesize() >> 20
}

// run calls done(i, result) for every job that ended; it returns when all are finished or the pool was stopped.
func (p *pool) run(jobs []*Job, until time.Time, done func(int, *Result)) error {
	next := make(chan int)
	go func() {
		defer close(next)
		for i := range jobs {
			select {
			case next <- i:
			case <-p.quit:
				return
			}
		}
	}()
	var wg sync.WaitGroup
	var first error
	for t := 0; t < p.n && t < len(jobs); t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for i := range next {
				left := int(time.Until(until).Seconds())
				if left < 2 {
					p.stop()
					return
				}
				if w == nil {
					var err error
					if w, err = startWorker(p.dir, p.harness, p.rss); err != nil {
						p.mu.Lock()
						if first == nil {
							first = err
						}
						p.mu.Unlock()
						p.stop()
						return
					}
				}
				j := *jobs[i]
				if j.Secs == 0 || j.Secs > left {
					j.Secs = left
				}
				t0 := time.Now()
				r := func() *Result {
					if err := w.in.Encode(workReq{i, &j}); err != nil {
						return &Result{Verdict: "inconclusive", Why: "worker ended: " + err.Error()}
					}
					hard := time.After(time.Duration(j.Secs+10) * time.Second)
					tick := time.NewTicker(500 * time.Millisecond)
					defer tick.Stop()
					for {
						select {
						case x, ok := <-w.out:
							if !ok {
								return &Result{Verdict: "inconclusive", Why: "worker ended"}
							}
							return x.Res
						case <-hard:
							return &Result{Verdict: "inconclusive", Why: "time limit"}
						case <-tick.C:
							if m := rssMB(w.cmd.Process.Pid); m > 2*p.rss {
								return &Result{Verdict: "inconclusive", Why: fmt.Sprintf("memory limit (%d MB)", m)}
							}
						case <-p.quit:
							return nil
						}
					}
				}()
				if r == nil {
					return
				}
				if r.Verdict == "inconclusive" && (r.Why == "time limit" || r.Why == "worker ended" || len(r.Why) > 6 && r.Why[:6] == "memory") {
					w.stop()
					w = nil
				} else if rssMB(w.cmd.Process.Pid) > p.rss {
					w.stop()
					w = nil
				}
				r.Job = jobs[i]
				r.Wall = time.Since(t0)
				done(i, r)
			}
		}()
	}
	wg.Wait()
	return first
}
