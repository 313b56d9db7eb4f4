// Package sync stands in for the standard library's sync in simulated code: the same semantics, but
// waiting hands control to the simulator's scheduler. The happens-before edges are those of the real
// primitives (TryLock and atomics underneath), so the race detector judges them as usual.
package sync

import (
	realsync "sync"
	"sync/atomic"

	"github.com/tdewolff/font/zzverif/simrt"
)

type Locker = realsync.Locker

type Mutex struct{ m realsync.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		simrt.Park()
	}
	simrt.Progress()
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m realsync.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		simrt.Park()
	}
	simrt.Progress()
}
func (m *RWMutex) TryLock() bool { return m.m.TryLock() }
func (m *RWMutex) Unlock()       { m.m.Unlock() }
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		simrt.Park()
	}
	simrt.Progress()
}
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var result T
	do := OnceFunc(func() { result = f() })
	return func() T { do(); return result }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	do := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { do(); return r1, r2 }
}

type WaitGroup struct{ n atomic.Int64 }

func (wg *WaitGroup) Add(delta int) {
	if wg.n.Add(int64(delta)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Progress()
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	for wg.n.Load() != 0 {
		simrt.Park()
	}
}
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		f()
	})
}

type Cond struct {
	L   Locker
	gen atomic.Uint64
	sig atomic.Int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen.Load()
	c.L.Unlock()
	for {
		if c.gen.Load() != g {
			break
		}
		if n := c.sig.Load(); n > 0 && c.sig.CompareAndSwap(n, n-1) {
			break
		}
		simrt.Park()
	}
	simrt.Progress()
	c.L.Lock()
}
func (c *Cond) Signal()    { c.sig.Add(1) }
func (c *Cond) Broadcast() { c.gen.Add(1) }

type Map = realsync.Map

// Pool is deterministic: last in, first out, nothing is dropped. An item passed from Put to Get
// carries a happens-before edge as with the real pool.
type Pool struct {
	New   func() any
	m     realsync.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}
