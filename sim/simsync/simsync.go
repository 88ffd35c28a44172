// Package simsync replaces package sync in instrumented sources: the same
// semantics and the same happens-before edges, but a task that would block
// hands over to the simulator's scheduler instead of the runtime's.
package simsync

import (
	"sync"

	"github.com/blocktree/go-owcdrivers/verifsim/simrt"
)

type Locker = sync.Locker
type Map = sync.Map

func block(what string) {
	if !simrt.Blocked() {
		panic("simulated deadlock: " + what + " with no other task to release it")
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	for !m.mu.TryLock() {
		block("Mutex.Lock")
	}
}
func (m *Mutex) TryLock() bool { return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.mu.TryLock() {
		block("RWMutex.Lock")
	}
}
func (m *RWMutex) RLock() {
	for !m.mu.TryRLock() {
		block("RWMutex.RLock")
	}
}
func (m *RWMutex) TryLock() bool   { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { return m.mu.TryRLock() }
func (m *RWMutex) Unlock()         { m.mu.Unlock() }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type WaitGroup struct{ wg sync.WaitGroup }

func (w *WaitGroup) Add(d int) { w.wg.Add(d) }
func (w *WaitGroup) Done()     { w.wg.Done() }
func (w *WaitGroup) Wait()     { w.wg.Wait() }

// Pool keeps every object it is given and hands the latest one back: the
// schedule under which a missing reset shows.
type Pool struct {
	New func() interface{}
	m   sync.Mutex
	s   []interface{}
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.s = append(p.s, x)
	p.m.Unlock()
}
