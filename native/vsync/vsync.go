// Package sync stands in for the standard package during replay.
package sync

import (
	"MODULE/zzverif/sched"
	real "sync"

	"MODULE/zzverif/vatomic"
)

type (
	Locker    = real.Locker
	Map       = real.Map
	WaitGroup = real.WaitGroup
)

type Mutex struct{ m real.Mutex }

func (m *Mutex) Lock()         { sched.Acquire(m.m.TryLock) }
func (m *Mutex) TryLock() bool { sched.Point(); return m.m.TryLock() }
func (m *Mutex) Unlock() {
	if m.m.TryLock() {
		m.m.Unlock()
		sched.Trouble("panic", "unlock of unlocked mutex")
		return
	}
	m.m.Unlock()
}

type RWMutex struct{ m real.RWMutex }

func (m *RWMutex) Lock()          { sched.Acquire(m.m.TryLock) }
func (m *RWMutex) TryLock() bool  { sched.Point(); return m.m.TryLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { sched.Acquire(m.m.TryRLock) }
func (m *RWMutex) TryRLock() bool { sched.Point(); return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }

// Once has the scheduling points of the standard one.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !o.done.Load() {
		o.doSlow(f)
	}
}

func (o *Once) doSlow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// Pool keeps the value that was put last.
type Pool struct {
	New func() interface{}
	m   real.Mutex
	x   interface{}
}

func (p *Pool) Put(x interface{}) {
	sched.Point()
	p.m.Lock()
	if x != nil {
		p.x = x
	}
	p.m.Unlock()
}

func (p *Pool) Get() interface{} {
	sched.Point()
	p.m.Lock()
	x := p.x
	p.x = nil
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}
