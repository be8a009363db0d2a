// Package sched is a cooperative scheduler for replaying a recorded interleaving.
// One goroutine runs at a time; control changes hands only at points.
package sched

import (
	"fmt"
	"runtime"
	"sync"
	"time"
)

type Seg struct {
	Thread, Round, Vis int
	Plain              string
}

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked bool
	panicV  interface{}
	quota   int    // -1: no limit
	plain   string // with no quota left: the plain store before which to stop
	steps   int
}

// endMu orders the end of the goroutines before what follows.
var endMu sync.Mutex

var (
	cur       *thread
	back      chan struct{}
	Draws     map[int][]int64
	drawAt    map[int]int
	MaxSteps  = 20000
	mainSteps int
	// Trouble is called for a lock that the main goroutine cannot get or a fatal unlock.
	Trouble func(kind, msg string)
)

// Cost gives the number of points of the main goroutine since it was last asked.
func Cost() int {
	n := mainSteps - costAt
	costAt = mainSteps
	return n
}

var costAt int

// Point is a place where the running goroutine may be preempted.
func Point() {
	t := cur
	if t == nil {
		mainSteps++
		if mainSteps > 5000000 {
			Trouble("livelock", "a call does not finish")
		}
		return
	}
	for t.quota == 0 {
		park(t)
	}
	consume(t)
}

func consume(t *thread) {
	if t.quota > 0 {
		t.quota--
	}
	t.steps++
	if t.steps > MaxSteps {
		Trouble("livelock", fmt.Sprintf("goroutine %d does not finish", t.id))
		raceDisable()
		<-t.wake // never
	}
}

// Assign is a plain store.
func Assign[T any](p *T, v T, pos string) {
	if t := cur; t != nil && t.quota == 0 && t.plain == pos {
		park(t)
	}
	*p = v
}

func park(t *thread) {
	raceDisable()
	back <- struct{}{}
	<-t.wake
	cur = t
	raceEnable()
}

// Acquire waits until try succeeds; the attempt is one point.
func Acquire(try func() bool) {
	t := cur
	if t == nil {
		if !try() {
			Trouble("deadlock", "lock is never released")
		}
		return
	}
	for {
		for t.quota == 0 {
			park(t)
		}
		if try() {
			t.blocked = false
			break
		}
		t.blocked = true
		park(t)
	}
	consume(t)
}

func run(t *thread, quota int, plain string) {
	t.quota, t.plain = quota, plain
	cur = t
	raceDisable()
	t.wake <- struct{}{}
	<-back
	raceEnable()
	cur = nil
}

// Result of a parallel section.
type Result struct {
	Done, Blocked []bool
	Panic         []interface{}
}

// Par runs fs under the recorded segments. letters are segments without preemption.
func Par(sched string, segs []Seg, stall bool, fs []func()) Result {
	back = make(chan struct{})
	ts := make([]*thread, len(fs))
	for i := range fs {
		t := &thread{id: i, wake: make(chan struct{})}
		ts[i] = t
		f := fs[i]
		go func() {
			raceDisable()
			<-t.wake
			cur = t
			raceEnable()
			defer func() {
				endMu.Lock()
				endMu.Unlock()
				if r := recover(); r != nil {
					buf := make([]byte, 4096)
					buf = buf[:runtime.Stack(buf, false)]
					t.panicV = fmt.Sprint(r, "\n", string(buf))
				}
				t.done = true
				raceDisable()
				back <- struct{}{}
				raceEnable()
			}()
			f()
		}()
	}
	for r := 0; r < len(sched); r++ {
		ch := sched[r]
		id, quota, plain := int(ch-'0'), 0, ""
		if ch >= 'a' {
			id, quota = int(ch-'a'), -1
		} else {
			for _, s := range segs {
				if s.Round == r && s.Thread == id {
					quota, plain = s.Vis, s.Plain
				}
			}
		}
		if !ts[id].done {
			run(ts[id], quota, plain)
		}
	}
	if !stall {
		// let goroutines that wait for locks go on
		for again := true; again; {
			again = false
			for _, t := range ts {
				if t.done {
					continue
				}
				n := t.steps
				run(t, -1, "")
				if t.done || t.steps != n {
					again = true
				}
			}
		}
	}
	endMu.Lock()
	endMu.Unlock()
	var res Result
	for _, t := range ts {
		res.Done = append(res.Done, t.done)
		res.Blocked = append(res.Blocked, t.blocked)
		res.Panic = append(res.Panic, t.panicV)
	}
	cur = nil
	return res
}

// Draw gives the next recorded random draw of the running goroutine.
func Draw() (int64, bool) {
	id := -1
	if cur != nil {
		id = cur.id
	}
	if drawAt == nil {
		drawAt = map[int]int{}
	}
	i := drawAt[id]
	drawAt[id]++
	if i < len(Draws[id]) {
		return Draws[id][i], true
	}
	return 0, false
}

// Current gives the number of the running goroutine, -1 outside of Par.
func Current() int {
	if cur != nil {
		return cur.id
	}
	return -1
}

// Gosched and Sleep stand in for the functions of that name.
func Gosched() { Point() }

func Sleep(time.Duration) { Point() }
