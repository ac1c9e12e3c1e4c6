//go:build go1.23

// Package sync stands in for the standard one in the instrumented code: waiting is left to the scheduler.
// The standard types inside keep the ordering the race detector knows of.
package sync

import (
	"sync"
	"sync/atomic"

	"verif/harness/sched"
)

// Locker is the standard one.
type Locker = sync.Locker

// Mutex with scheduling points.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	sched.SyncPoint()
	for !m.m.TryLock() {
		if !sched.Block() {
			m.m.Lock()
			return
		}
	}
}

func (m *Mutex) TryLock() bool { sched.SyncPoint(); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); sched.Wake(); sched.SyncPoint() }

// RWMutex with scheduling points.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	sched.SyncPoint()
	for !m.m.TryLock() {
		if !sched.Block() {
			m.m.Lock()
			return
		}
	}
}

func (m *RWMutex) RLock() {
	sched.SyncPoint()
	for !m.m.TryRLock() {
		if !sched.Block() {
			m.m.RLock()
			return
		}
	}
}

func (m *RWMutex) TryLock() bool  { sched.SyncPoint(); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.SyncPoint(); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); sched.Wake(); sched.SyncPoint() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); sched.Wake(); sched.SyncPoint() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker as in the standard package.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once with scheduling points.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.SyncPoint()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// OnceFunc as in the standard package.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue as in the standard package.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

// OnceValues as in the standard package.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var (
		once  Once
		valid bool
		p     any
		a     A
		b     B
	)
	return func() (A, B) {
		once.Do(func() {
			defer func() {
				if p = recover(); !valid {
					panic(p)
				}
			}()
			a, b = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return a, b
	}
}

// WaitGroup with scheduling points.
type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

func (w *WaitGroup) Add(d int) { sched.SyncPoint(); w.wg.Add(d); w.n.Add(int64(d)); sched.Wake() }
func (w *WaitGroup) Done()     { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sched.SyncPoint()
	for w.n.Load() > 0 {
		if !sched.Block() {
			break
		}
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

// Map with scheduling points.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.SyncPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.SyncPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.SyncPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.SyncPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.SyncPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.SyncPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	sched.SyncPoint()
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool {
	sched.SyncPoint()
	return m.m.CompareAndDelete(k, old)
}
func (m *Map) Range(f func(k, v any) bool) { sched.SyncPoint(); m.m.Range(f) }
func (m *Map) Clear()                      { sched.SyncPoint(); m.m.Clear() }

// Pool is last in, first out: what is put back is what the next one gets, as it may be.
type Pool struct {
	New func() any
}

// Items wait in places that exist before any thread starts: memory taken by one thread while the other looks
// for an item would look like an unsynchronised access. An item that finds no place is dropped, as it may be.
type place struct {
	m    sync.Mutex // orders the putting and the getting of this item, and of no other
	v    any
	pool *Pool
	gen  uint64
	seq  uint64
}

var (
	places [256]place
	putSeq uint64
)

func (p *Pool) Get() any {
	sched.SyncPoint()
	if i := p.last(); i >= 0 {
		it := &places[i]
		it.m.Lock()
		v := it.v
		it.v = nil
		it.m.Unlock()
		leave(i)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	sched.SyncPoint()
	if x == nil {
		return
	}
	if i := vacant(); i >= 0 {
		it := &places[i]
		it.m.Lock()
		it.v = x
		it.m.Unlock()
		p.take(i)
	}
	sched.SyncPoint()
}

//go:norace
func (p *Pool) last() (found int) {
	found = -1
	for i := range places {
		it := &places[i]
		if it.pool == p && it.gen == sched.Generation() && (found < 0 || it.seq > places[found].seq) {
			found = i
		}
	}
	return found
}

//go:norace
func vacant() int {
	for i := range places {
		if places[i].pool == nil || places[i].gen != sched.Generation() {
			return i
		}
	}
	return -1
}

//go:norace
func leave(i int) { places[i].pool = nil }

//go:norace
func (p *Pool) take(i int) {
	putSeq++
	places[i].pool, places[i].gen, places[i].seq = p, sched.Generation(), putSeq
}

// Cond with scheduling points.
type Cond struct {
	L   Locker
	gen atomic.Uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen.Load()
	c.L.Unlock()
	for c.gen.Load() == g {
		if !sched.Block() {
			break
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal()    { c.Broadcast() }
func (c *Cond) Broadcast() { c.gen.Add(1); sched.Wake(); sched.SyncPoint() }
