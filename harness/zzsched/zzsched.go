// Package zzsched is a cooperative scheduler: of the threads of an execution just one runs at a time, and at every
// synchronization operation the explorer chooses which one goes on. It also decides the order in which maps are
// iterated. The hand-over between threads is hidden from the race detector, so that the only edges that it sees
// are those of the program under test. It is meant for GOMAXPROCS=1.
package zzsched

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"time"
)

// Thread states
const (
	ready = iota
	blocked
	done
	outside // busy for long, or blocked in something that the scheduler does not know
)

type thread struct {
	id    int
	goid  string
	state int
	wait  Waiter
	msg   string // panic
}

// Waiter tells whether a blocked thread can go on. Its method must not be instrumented.
type Waiter interface{ Ready() bool }

// Choice is a decision of an execution.
type Choice struct {
	N       int // number of alternatives
	Taken   int
	Preempt bool // taking another alternative than 0 is a preemption
}

// Exec is one execution.
type Exec struct {
	threads  []*thread
	cur      int // whose turn it is; -1: nobody's
	active   bool
	prefix   []int
	Choices  []Choice
	Diverged bool
	Deadlock string
	Livelock bool
	steps    int
	streak   int
	foreign  bool // some thread was found outside
	free     bool
	ended    bool // given up
	stopped  chan struct{}
	bodies   int
}

const (
	maxSteps  = 20000
	maxStreak = 300
)

var ex *Exec

// MapMode is what happens when a map is iterated: nil is the natural order.
var MapMode *MapOrders

//go:norace
func Active() bool { return ex != nil && ex.active }

// Point is a place at which another thread may be chosen.
//
//go:norace
func Point() {
	e := ex
	if e == nil || !e.active {
		return
	}
	e.pick(e.self(), true)
}

// Step is a point between two operations of a thread: choosing another thread is no preemption.
//
//go:norace
func Step() {
	e := ex
	if e == nil || !e.active {
		return
	}
	t := e.self()
	e.free = true
	e.pick(t, true)
}

var trying bool

// Trying notes that there are attempts to take locks; then releases are points as well.
//
//go:norace
func Trying() { trying = true; Point() }

// Released is called after a release.
//
//go:norace
func Released() {
	if trying {
		Point()
	}
}

// Block waits until w is ready.
//
//go:norace
func Block(w Waiter) {
	e := ex
	if e == nil || !e.active {
		for !w.Ready() {
			runtime.Gosched()
		}
		return
	}
	if w.Ready() {
		return
	}
	t := e.self()
	t.state, t.wait = blocked, w
	e.pick(t, false)
}

// self is the thread of the caller.
//
//go:norace
func (e *Exec) self() *thread {
	if !e.foreign {
		return e.threads[e.cur]
	}
	id := goid()
	for _, t := range e.threads {
		if t.goid == id {
			if t.state == outside {
				// back again
				t.state = ready
				if e.cur == -1 {
					e.cur = t.id
				} else {
					e.waitTurn(t)
				}
			}
			return t
		}
	}
	// a goroutine that is no thread: make it one
	t := e.add()
	t.goid = id
	return t
}

func goid() string {
	var buf [40]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

//go:norace
func (e *Exec) pick(t *thread, enabled bool) {
	e.steps++
	if e.steps > maxSteps {
		e.Livelock = true
		e.stop()
		select {}
	}
	n := e.choose(t, enabled)
	if n < 0 {
		if e.foreign {
			// someone may still come back
			e.cur = -1
			e.waitTurn(t)
			return
		}
		e.finish()
		select {}
	}
	if n != t.id {
		e.streak = 0
		e.cur = n
		e.waitTurn(t)
		return
	}
	e.streak++
	t.state, t.wait = ready, nil
}

// choose picks the next thread: the current one first if it can go on, then the others in order.
//
//go:norace
func (e *Exec) choose(t *thread, enabled bool) int {
	var alts [16]int
	n := 0
	free := e.free
	e.free = false
	self := t != nil && enabled
	if self && e.streak < maxStreak {
		alts[n] = t.id
		n++
	}
	for _, o := range e.threads {
		if self && o.id == t.id || o.state == done || o.state == outside {
			continue
		}
		if o.state == blocked && !o.wait.Ready() {
			continue
		}
		if n < len(alts) {
			alts[n] = o.id
			n++
		}
	}
	if self && e.streak >= maxStreak {
		// a thread that goes round and round has to let the others go on
		e.streak = 0
		if n == 0 {
			return t.id
		}
		return alts[e.steps%n]
	}
	if n == 0 {
		return -1
	}
	return alts[e.decide(n, self && !free)]
}

//go:norace
func (e *Exec) decide(n int, preempt bool) int {
	if n == 1 {
		return 0
	}
	i := len(e.Choices)
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		if c >= n {
			e.Diverged = true
			c = 0
		}
	}
	e.Choices = append(e.Choices, Choice{n, c, preempt})
	return c
}

//go:norace
func (e *Exec) waitTurn(t *thread) {
	for e.cur != t.id {
		if !e.active {
			select {}
		}
		runtime.Gosched()
	}
	t.state, t.wait = ready, nil
}

// stop gives up the execution; the threads are abandoned.
//
//go:norace
func (e *Exec) stop() {
	e.active = false
	e.ended = true
	close(e.stopped)
}

// Ended reports whether the execution was given up.
func (e *Exec) Ended() bool { return e.ended }

// Go starts a goroutine of the program under test as a thread.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	e := ex
	t := e.add()
	go e.body(t, f)
	Point()
}

//go:norace
func (e *Exec) add() *thread {
	t := &thread{id: len(e.threads)}
	e.threads = append(e.threads, t)
	return t
}

func (e *Exec) body(t *thread, f func()) {
	e.enter(t)
	defer e.leave(t)
	f()
}

//go:norace
func (e *Exec) enter(t *thread) {
	t.goid = goid()
	e.waitTurn(t)
}

//go:norace
func (e *Exec) leave(t *thread) {
	if r := recover(); r != nil {
		buf := make([]byte, 4096)
		t.msg = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
	}
	if e.ended {
		return
	}
	was := t.state
	t.state = done
	e.steps++
	e.streak = 0
	if was == outside && e.cur != -1 {
		return // somebody else has the turn
	}
	n := e.choose(t, false)
	if n >= 0 {
		e.cur = n
		return
	}
	e.cur = -1
	for _, o := range e.threads {
		if o.state == outside {
			return
		}
	}
	e.finish()
}

// finish ends the execution when no thread can go on. Goroutines that the program started itself may be left waiting.
//
//go:norace
func (e *Exec) finish() {
	for _, o := range e.threads[:e.bodies] {
		if o.state != done {
			e.Deadlock = "all threads that are left are blocked"
			e.stop()
			return
		}
	}
	e.active = false
}

var ticker = time.NewTicker(250 * time.Millisecond)

// Run runs the bodies as threads, following the prefix of choices.
func Run(prefix []int, bodies []func()) *Exec {
	e := &Exec{bodies: len(bodies), active: true, prefix: prefix, cur: -1, Choices: make([]Choice, 0, 256), threads: make([]*thread, 0, 16), stopped: make(chan struct{})}
	for range bodies {
		e.add()
	}
	ex = e
	join := make(chan struct{}, len(bodies))
	for i, f := range bodies {
		t, f := e.threads[i], f
		go func() {
			defer func() { join <- struct{}{} }()
			e.body(t, f)
		}()
	}
	e.begin()
	last, since := -1, time.Now()
	joined := 0
	for joined < len(bodies) {
		select {
		case <-join: // the race detector sees that the threads come before what follows
			joined++
			continue
		case <-e.stopped:
			ex = nil
			return e
		case <-ticker.C:
		}
		if e.watch(&last, &since) {
			ex = nil
			return e
		}
	}
	for since = time.Now(); e.running(); runtime.Gosched() {
		if e.watch(&last, &since); e.foreign {
			break // what is left is not waited for
		}
	}
	e.retire()
	ex = nil
	return e
}

//go:norace
func (e *Exec) running() bool { return e.active }

//go:norace
func (e *Exec) retire() { e.active = false }

//go:norace
func (e *Exec) begin() {
	e.cur = e.choose(nil, false)
}

// watch looks for a thread that makes no progress because it is blocked in something unknown to the scheduler:
// it is left alone, and the others go on.
//
//go:norace
func (e *Exec) watch(last *int, since *time.Time) bool {
	if e.steps != *last {
		*last, *since = e.steps, time.Now()
		return false
	}
	idle := time.Since(*since)
	if e.cur >= 0 {
		if t := e.threads[e.cur]; t.state != outside && idle > 2*time.Second {
			t.state = outside
			e.foreign = true
			e.cur = e.choose(nil, false)
			*since = time.Now()
		}
		return false
	}
	if n := e.choose(nil, false); n >= 0 {
		e.cur = n // threads that can go on again
		*since = time.Now()
		return false
	}
	if idle > 30*time.Second {
		e.Deadlock = "no thread makes progress"
		e.stop()
		return true
	}
	return false
}

// Panics are the panics of the threads.
func (e *Exec) Panics() []string {
	var out []string
	for _, t := range e.threads {
		if t.msg != "" {
			out = append(out, t.msg)
		}
	}
	return out
}

// Steps is the number of steps taken.
func (e *Exec) Steps() int { return e.steps }

// Foreign reports whether a thread was found outside; then the execution cannot be repeated exactly.
func (e *Exec) Foreign() bool { return e.foreign }

// ---- maps

// MapOrders decides the order of iteration: the i-th iteration uses the order Order[i], 0 is ascending.
type MapOrders struct {
	Order map[int]int
	Sizes []int // sizes of the maps iterated
}

// Pair is an entry of a map.
type Pair[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live reports whether the entry is still there.
func (p Pair[K, V]) Live() bool { _, ok := p.m[p.K]; return ok }

// Val is the value of the entry.
func (p Pair[K, V]) Val() V { return p.m[p.K] }

// Pairs are the entries of a map in the order of the explorer.
func Pairs[K comparable, V any](m map[K]V) []Pair[K, V] {
	out := make([]Pair[K, V], 0, len(m))
	for k := range m {
		out = append(out, Pair[K, V]{k, m})
	}
	if MapMode == nil {
		return out
	}
	keys := make([]string, len(out))
	for i := range out {
		if s, ok := any(out[i].K).(string); ok {
			keys[i] = s
		} else {
			keys[i] = fmt.Sprint(out[i].K)
		}
	}
	idx := make([]int, len(out))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	sorted := make([]Pair[K, V], len(out))
	for i, x := range idx {
		sorted[i] = out[x]
	}
	n := len(MapMode.Sizes)
	MapMode.Sizes = append(MapMode.Sizes, len(out))
	perm := Perm(len(out), MapMode.Order[n])
	for i, x := range perm {
		out[i] = sorted[x]
	}
	return out
}

// NumPerms is the number of orders that are explored for a map of n entries: all of them up to five, else the
// rotations, the reversed rotations, each entry first, each entry last and the swaps of neighbours.
func NumPerms(n int) int {
	if n <= 5 {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		return f
	}
	return 5 * n
}

// Perm is the k-th order; the 0-th is ascending.
func Perm(n, k int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n > 0 {
		k %= NumPerms(n)
	}
	if n <= 1 || k == 0 {
		return p
	}
	if n <= 5 {
		rest := append([]int{}, p...)
		f := NumPerms(n)
		for i := 0; i < n; i++ {
			f /= n - i
			x := k / f
			k %= f
			p[i] = rest[x]
			rest = append(rest[:x], rest[x+1:]...)
		}
		return p
	}
	x := k % n
	switch k / n {
	case 0: // rotation
		for i := range p {
			p[i] = (i + x) % n
		}
	case 1: // reversed rotation
		for i := range p {
			p[i] = (2*n - 1 - i - x) % n
		}
	case 2: // x first
		copy(p[1:x+1], p[:x])
		p[0] = x
	case 3: // x last
		copy(p[x:], p[x+1:])
		p[n-1] = x
	case 4: // swap
		if x+1 < n {
			p[x], p[x+1] = p[x+1], p[x]
		} else {
			p[0], p[n-1] = p[n-1], p[0]
		}
	}
	return p
}
