// Package simsync replaces package sync in instrumented code.  Outside a
// simulation (package initialisation, reference calls) it never has to wait.
package simsync

import (
	"sync"
	"unsafe"

	"amsim/simrt"
)

type Locker = sync.Locker

// Contended counts lock acquisitions that had to wait.
var Contended int64

//go:norace
func contended() { Contended++ }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
}

//go:norace
func (m *Mutex) ptr() unsafe.Pointer { return unsafe.Pointer(m) }

//go:norace
func (m *Mutex) Lock() {
	if !simrt.InSim() {
		if m.held {
			simrt.Misuse("lock would block outside simulation")
		}
		m.held = true
		return
	}
	simrt.Point()
	if m.held {
		contended()
	}
	for m.held && !simrt.Dying() {
		simrt.Block(m.ptr(), true)
	}
	m.held = true
	simrt.RaceAcquire(m.ptr())
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Point()
	if m.held {
		return false
	}
	m.held = true
	simrt.RaceAcquire(m.ptr())
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		simrt.Misuse("sync: unlock of unlocked mutex")
		return
	}
	simrt.RaceRelease(m.ptr())
	m.held = false
	if simrt.InSim() {
		simrt.Wake(m.ptr())
		simrt.Point()
	}
}

// RWMutex is a reader/writer lock: as in the original, a waiting writer blocks
// new readers.
type RWMutex struct {
	writer  bool // a writer holds or has announced itself
	active  bool // the writer holds the lock
	readers int
	rsem    byte
	wsem    byte
}

//go:norace
func (m *RWMutex) ptr() unsafe.Pointer { return unsafe.Pointer(m) }

//go:norace
func (m *RWMutex) Lock() {
	if !simrt.InSim() {
		if m.writer || m.readers > 0 {
			simrt.Misuse("lock would block outside simulation")
		}
		m.writer, m.active = true, true
		return
	}
	simrt.Point()
	if m.writer || m.readers > 0 {
		contended()
	}
	for m.writer && !simrt.Dying() {
		simrt.Block(m.ptr(), true)
	}
	m.writer = true
	for m.readers > 0 && !simrt.Dying() {
		simrt.Block(m.ptr(), true)
	}
	m.active = true
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer, m.active = true, true
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.active {
		simrt.Misuse("sync: Unlock of unlocked RWMutex")
		return
	}
	simrt.RaceRelease(unsafe.Pointer(&m.rsem))
	m.writer, m.active = false, false
	if simrt.InSim() {
		simrt.Wake(m.ptr())
		simrt.Point()
	}
}

//go:norace
func (m *RWMutex) RLock() {
	if !simrt.InSim() {
		if m.writer {
			simrt.Misuse("lock would block outside simulation")
		}
		m.readers++
		return
	}
	simrt.Point()
	if m.writer {
		contended()
	}
	for m.writer && !simrt.Dying() {
		simrt.Block(m.ptr(), true)
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.Point()
	if m.writer {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		simrt.Misuse("sync: RUnlock of unlocked RWMutex")
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.wsem))
	m.readers--
	if simrt.InSim() {
		simrt.Wake(m.ptr())
		simrt.Point()
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once runs a function once.
type Once struct {
	done bool
	m    Mutex
	sem  byte
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { simrt.RaceReleaseMerge(unsafe.Pointer(&o.sem)); o.done = true }

func (o *Once) Do(f func()) {
	simrt.Point()
	if o.isDone() {
		simrt.RaceAcquire(unsafe.Pointer(&o.sem))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	} else {
		simrt.RaceAcquire(unsafe.Pointer(&o.sem))
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var valid bool
	var p any
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	of := OnceFunc(func() { v = f() })
	return func() T { of(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	of := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { of(); return a, b }
}

// WaitGroup waits for tasks to finish.
type WaitGroup struct {
	n   int
	sem byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.Point()
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.sem))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.Point()
	for w.n > 0 && !simrt.Dying() {
		if !simrt.InSim() {
			simrt.Misuse("wait would block outside simulation")
		}
		simrt.Block(unsafe.Pointer(w), true)
	}
	simrt.RaceAcquire(unsafe.Pointer(&w.sem))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Cond is a condition variable.
type Cond struct {
	L    Locker
	tick int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := c.tick
	c.L.Unlock()
	for c.tick == t && !simrt.Dying() {
		simrt.Block(unsafe.Pointer(c), true)
	}
	c.L.Lock()
}

// Signal may wake more than one waiter, as users of Cond must expect.
//
//go:norace
func (c *Cond) Signal() { c.Broadcast() }

//go:norace
func (c *Cond) Broadcast() { c.tick++; simrt.Wake(unsafe.Pointer(c)) }

// Pool hands out what was put into it as adversarially as the original may: any
// item at any time, to any task, or nothing.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Point()
	p.put(x)
	simrt.Point()
}

//go:norace
func (p *Pool) put(x any) {
	if simrt.RaceMode {
		return // a pool must not create happens-before edges here
	}
	if len(p.items) < 64 {
		p.items = append(p.items, x)
	}
}

func (p *Pool) Get() any {
	simrt.Point()
	if x := p.get(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) get() any {
	n := len(p.items)
	if n == 0 {
		return nil
	}
	i := 0
	if simrt.InSim() {
		i = simrt.S.Env.Draw(n + 1)
		if i == n {
			return nil
		}
	}
	i = n - 1 - i
	x := p.items[i]
	p.items = append(p.items[:i:i], p.items[i+1:]...)
	return x
}

// Map is a concurrent map.
type Map struct {
	mu  Mutex
	m   map[any]any
	sem byte
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok = m.m[k]
	return
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (old any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, loaded = m.m[k]
	m.m[k] = v
	return
}

func (m *Map) LoadOrStore(k, v any) (actual any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (v any, loaded bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, loaded = m.m[k]
	delete(m.m, k)
	return
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	es := simrt.Entries(m.m)
	m.mu.Unlock()
	for _, e := range es {
		if v, ok := m.Load(e.K); ok && !f(e.K, v) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}
