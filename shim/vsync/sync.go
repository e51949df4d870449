// Package vsync replaces sync.
package vsync

import (
	"sync"
	"vshim/vsched"
)

type Locker = sync.Locker

type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	vsched.Point("Lock")
	if m.locked {
		vsched.Block("Lock", func() bool { return !m.locked })
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	vsched.Point("TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.locked = false
		return
	}
	if !m.locked {
		vsched.Finish(vsched.Fatal, "sync: unlock of unlocked mutex")
	}
	m.locked = false
	vsched.Point("Unlock")
}

// RWMutex prefers writers, as sync.RWMutex does: a waiting writer blocks new readers.
type RWMutex struct {
	w        bool
	readers  int
	wwaiting int
}

func (m *RWMutex) Lock() {
	vsched.Point("Lock")
	if m.w || m.readers > 0 || m.wwaiting > 0 {
		m.wwaiting++
		vsched.Block("RWMutex.Lock", func() bool { return !m.w && m.readers == 0 })
		m.wwaiting--
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	vsched.Point("TryLock")
	if m.w || m.readers > 0 || m.wwaiting > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.w = false
		return
	}
	if !m.w {
		vsched.Finish(vsched.Fatal, "sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	vsched.Point("Unlock")
}

func (m *RWMutex) RLock() {
	vsched.Point("RLock")
	if m.w || m.wwaiting > 0 {
		vsched.Block("RWMutex.RLock", func() bool { return !m.w && m.wwaiting == 0 })
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point("TryRLock")
	if m.w || m.wwaiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		vsched.Finish(vsched.Fatal, "sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.Point("RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Point("Once.Do")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	vsched.Point("WaitGroup.Add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Point("WaitGroup.Wait")
	if w.n != 0 {
		vsched.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go("wg", func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	gen []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.gen = append(c.gen, b)
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return *b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Point("Cond.Signal")
	if len(c.gen) > 0 {
		*c.gen[0] = true
		c.gen = c.gen[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Point("Cond.Broadcast")
	for _, b := range c.gen {
		*b = true
	}
	c.gen = nil
}

// Pool hands out any pooled object; reuse happens at once, which is the harshest legal behaviour.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vsched.Point("Pool.Get")
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	vsched.Point("Pool.Put")
	if v != nil {
		p.items = append(p.items, v)
	}
}

// Map is sync.Map over an insertion-ordered table.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	vsched.Point("Map.Load")
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Store(k, v any) { vsched.Point("Map.Store"); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Point("Map.LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Point("Map.LoadAndDelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { vsched.Point("Map.Delete"); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	vsched.Point("Map.Swap")
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	vsched.Point("Map.CompareAndSwap")
	if x, ok := m.m[k]; ok && x == old {
		m.set(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	vsched.Point("Map.CompareAndDelete")
	if x, ok := m.m[k]; ok && x == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	vsched.Point("Map.Range")
	for _, k := range append([]any{}, m.keys...) {
		vsched.Point("Map.Range next")
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { vsched.Point("Map.Clear"); m.m, m.keys = nil, nil }
