// Package vsync mirrors package sync on top of the deterministic scheduler.
package vsync

import (
	"github.com/QuangTung97/go-memcache/zzverif/vs"
)

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex mirrors sync.Mutex.
type Mutex struct{ locked bool }

// Lock locks m.
func (m *Mutex) Lock() {
	vs.Point()
	if vs.Aborting() {
		m.locked = true
		return
	}
	vs.Block("mutex", func() bool { return !m.locked })
	m.locked = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	vs.Point()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if vs.Aborting() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	vs.Point()
}

// RWMutex mirrors sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	vs.Point()
	if vs.Aborting() {
		return
	}
	m.waiting++
	vs.Block("rwmutex", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	m.w = true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	vs.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	if vs.Aborting() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vs.Point()
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	vs.Point()
	if vs.Aborting() {
		return
	}
	vs.Block("rwmutex", func() bool { return !m.w && m.waiting == 0 })
	m.r++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	vs.Point()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	if vs.Aborting() {
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	vs.Point()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type waiter struct{ sig bool }

// Cond mirrors sync.Cond.
type Cond struct {
	L Locker
	q []*waiter
}

// NewCond mirrors sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	vs.Point() // signals sent before the waiter is registered are lost
	w := &waiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	vs.Block("cond", func() bool { return w.sig })
	c.L.Lock()
}

// Signal wakes the longest waiting goroutine.
func (c *Cond) Signal() {
	vs.Point()
	if len(c.q) > 0 {
		c.q[0].sig = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all waiting goroutines.
func (c *Cond) Broadcast() {
	vs.Point()
	for _, w := range c.q {
		w.sig = true
	}
	c.q = nil
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct{ n int }

// Add adds d.
func (w *WaitGroup) Add(d int) {
	vs.Point()
	w.n += d
	if w.n < 0 && !vs.Aborting() {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	vs.Point()
	vs.Block("waitgroup", func() bool { return w.n <= 0 })
}

// Go runs f in a goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	vs.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

var pools []*Pool

func init() {
	vs.OnReset(func() {
		for _, p := range pools {
			p.items = nil
			p.reg = false
		}
		pools = nil
	})
}

// Pool mirrors sync.Pool.  It hands out the most recently returned object
// first, so that a premature or double return becomes visible at once.
type Pool struct {
	New   func() any
	items []any
	reg   bool
}

// Get takes an object.
func (p *Pool) Get() any {
	vs.Point()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an object.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if !p.reg {
		p.reg = true
		pools = append(pools, p)
	}
	p.items = append(p.items, x)
	vs.Point()
}

// Map mirrors sync.Map.
type Map struct {
	m    map[any]any
	keys []any
}

// Load mirrors (*sync.Map).Load.
func (m *Map) Load(k any) (any, bool) { vs.Point(); v, ok := m.m[k]; return v, ok }

// Store mirrors (*sync.Map).Store.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap mirrors (*sync.Map).Swap.
func (m *Map) Swap(k, v any) (any, bool) {
	vs.Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}

// LoadOrStore mirrors (*sync.Map).LoadOrStore.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vs.Point()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

// LoadAndDelete mirrors (*sync.Map).LoadAndDelete.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vs.Point()
	o, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return o, ok
}

// Delete mirrors (*sync.Map).Delete.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap mirrors (*sync.Map).CompareAndSwap.
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vs.Point()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}

// CompareAndDelete mirrors (*sync.Map).CompareAndDelete.
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}

// Range mirrors (*sync.Map).Range.
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
