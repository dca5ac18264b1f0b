// Package zzsync stands in for package sync under the explorer: every acquiring operation is a point at which another
// thread may be chosen, and a thread that would block is not chosen before it can go on. The operations of package
// sync are still carried out, so that the race detector sees their edges. Without an execution under way, it is
// package sync.
//
// Releases are no points: they commute with what other threads do before them. Code that does not race cannot tell
// the difference, and code that races is reported.
package zzsync

import (
	"sync"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/zzsched"
)

type Locker = sync.Locker

// Mutex

type Mutex struct {
	real sync.Mutex
	held bool
}

type muWait struct{ m *Mutex }

//go:norace
func (w muWait) Ready() bool { return !w.m.held }

//go:norace
func (m *Mutex) take() { m.held = true }

//go:norace
func (m *Mutex) drop() { m.held = false }

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

func (m *Mutex) Lock() {
	if zzsched.Active() {
		zzsched.Point()
		zzsched.Block(muWait{m})
	}
	m.real.Lock()
	m.take()
}

func (m *Mutex) TryLock() bool {
	zzsched.Trying()
	if !m.real.TryLock() {
		return false
	}
	m.take()
	return true
}

func (m *Mutex) Unlock() {
	m.drop()
	m.real.Unlock()
	zzsched.Released()
}

// RWMutex: as in package sync, a writer that waits keeps new readers out.

type RWMutex struct {
	real    sync.RWMutex
	readers int
	writer  bool
	waiting int
}

type readWait struct{ m *RWMutex }

//go:norace
func (w readWait) Ready() bool { return !w.m.writer && w.m.waiting == 0 }

type writeWait struct{ m *RWMutex }

//go:norace
func (w writeWait) Ready() bool { return !w.m.writer && w.m.readers == 0 }

//go:norace
func (m *RWMutex) add(readers, waiting int) { m.readers += readers; m.waiting += waiting }

//go:norace
func (m *RWMutex) setWriter(b bool) { m.writer = b }

func (m *RWMutex) RLock() {
	if zzsched.Active() {
		zzsched.Point()
		zzsched.Block(readWait{m})
	}
	m.real.RLock()
	m.add(1, 0)
}

func (m *RWMutex) TryRLock() bool {
	zzsched.Trying()
	if zzsched.Active() && !(readWait{m}).Ready() || !m.real.TryRLock() {
		return false
	}
	m.add(1, 0)
	return true
}

func (m *RWMutex) RUnlock() {
	m.add(-1, 0)
	m.real.RUnlock()
	zzsched.Released()
}

func (m *RWMutex) Lock() {
	if zzsched.Active() {
		zzsched.Point()
		m.add(0, 1)
		zzsched.Block(writeWait{m})
		m.add(0, -1)
	}
	m.real.Lock()
	m.setWriter(true)
}

func (m *RWMutex) TryLock() bool {
	zzsched.Trying()
	if !m.real.TryLock() {
		return false
	}
	m.setWriter(true)
	return true
}

func (m *RWMutex) Unlock() {
	m.setWriter(false)
	m.real.Unlock()
	zzsched.Released()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once

type Once struct {
	m    Mutex
	real sync.Once
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	zzsched.Point()
	if o.isDone() {
		o.real.Do(nop)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		o.real.Do(nop)
		return
	}
	defer o.setDone()
	o.real.Do(f)
}

func nop() {}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			f = nil
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v T1
	var u T2
	g := OnceFunc(func() { v, u = f() })
	return func() (T1, T2) { g(); return v, u }
}

// WaitGroup

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

type wgWait struct{ g *WaitGroup }

//go:norace
func (w wgWait) Ready() bool { return w.g.n <= 0 }

//go:norace
func (g *WaitGroup) count(n int) { g.n += n }

func (g *WaitGroup) Add(n int) { g.count(n); g.real.Add(n) }
func (g *WaitGroup) Done()     { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if zzsched.Active() {
		zzsched.Point()
		zzsched.Block(wgWait{g})
	}
	g.real.Wait()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	zzsched.Go(func() {
		defer g.Done()
		f()
	})
}

// Cond

type Cond struct {
	L     Locker
	m     sync.Mutex // carries the edges from Signal to Wait
	queue []*condWait
}

type condWait struct{ woken bool }

//go:norace
func (w *condWait) Ready() bool { return w.woken }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enqueue() *condWait {
	w := &condWait{}
	c.queue = append(c.queue, w)
	return w
}

//go:norace
func (c *Cond) wake(n int) {
	for n > 0 && len(c.queue) > 0 {
		c.queue[0].woken = true
		c.queue = c.queue[1:]
		n--
	}
}

func (c *Cond) edge() { c.m.Lock(); c.m.Unlock() }

func (c *Cond) Wait() {
	w := c.enqueue()
	c.L.Unlock()
	zzsched.Block(w)
	c.edge()
	c.L.Lock()
}

func (c *Cond) Signal()    { zzsched.Point(); c.edge(); c.wake(1) }
func (c *Cond) Broadcast() { zzsched.Point(); c.edge(); c.wake(1 << 30) }

// Pool hands out what was put last. Without an execution under way it is a pool as well.

type Pool struct {
	New  func() any
	m    sync.Mutex
	list []any
}

func (p *Pool) Get() any {
	zzsched.Point()
	p.m.Lock()
	if n := len(p.list); n > 0 {
		x := p.list[n-1]
		p.list = p.list[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	zzsched.Point()
	p.m.Lock()
	p.list = append(p.list, x)
	p.m.Unlock()
}

// Map

type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool)           { zzsched.Point(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { zzsched.Point(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { zzsched.Point(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { zzsched.Point(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { zzsched.Point(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { zzsched.Point(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	zzsched.Point()
	return m.real.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool { zzsched.Point(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Clear()                         { zzsched.Point(); m.real.Clear() }

// Range is not atomic: there is a point before each entry.
func (m *Map) Range(f func(k, v any) bool) {
	zzsched.Point()
	m.real.Range(func(k, v any) bool {
		zzsched.Point()
		return f(k, v)
	})
}
