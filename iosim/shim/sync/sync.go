package sync

import (
	"sync"
	"unsafe"

	"verif.local/io/sys"
	"verif.local/simk"
)

type Locker = sync.Locker

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	sys.Y()
	for m.locked {
		if sys.Gone() {
			return
		}
		wait(unsafe.Pointer(m))
	}
	m.locked = true
}

func wait(p unsafe.Pointer) {
	if !simk.Active() {
		panic("blocked outside of a simulation")
	}
	simk.Block(p)
	sys.Gone()
}

func (m *Mutex) TryLock() bool {
	sys.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if sys.Gone() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simk.Wake(unsafe.Pointer(m))
	sys.Y()
}

type RWMutex struct {
	w bool
	r int
	q int // waiting writers
}

func (m *RWMutex) Lock() {
	sys.Y()
	m.q++
	for m.w || m.r > 0 {
		if sys.Gone() {
			return
		}
		wait(unsafe.Pointer(m))
	}
	m.q--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	sys.Y()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if sys.Gone() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simk.Wake(unsafe.Pointer(m))
	sys.Y()
}

func (m *RWMutex) RLock() {
	sys.Y()
	for m.w || m.q > 0 {
		if sys.Gone() {
			return
		}
		wait(unsafe.Pointer(m))
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	sys.Y()
	if m.w || m.q > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if sys.Gone() {
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simk.Wake(unsafe.Pointer(m))
	sys.Y()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	if sys.Gone() {
		return
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		simk.Wake(unsafe.Pointer(g))
	}
	sys.Y()
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	sys.Y()
	for g.n > 0 {
		if sys.Gone() {
			return
		}
		wait(unsafe.Pointer(g))
	}
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sys.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	if !simk.Active() {
		o.done = true
		f()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L       Locker
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiting = append(c.waiting, woken)
	c.L.Unlock()
	for !*woken {
		if sys.Gone() {
			return
		}
		wait(unsafe.Pointer(woken))
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.waiting) > 0 {
		w := c.waiting[0]
		c.waiting = c.waiting[1:]
		*w = true
		simk.Wake(unsafe.Pointer(w))
	}
	sys.Y()
}

func (c *Cond) Broadcast() {
	for _, w := range c.waiting {
		*w = true
		simk.Wake(unsafe.Pointer(w))
	}
	c.waiting = nil
	sys.Y()
}

// Map keeps its keys in the order of insertion, so that Range is repeatable.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	sys.Y()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(k, v interface{}) {
	sys.Y()
	m.put(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	sys.Y()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	sys.Y()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k interface{}) {
	sys.Y()
	m.del(k)
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	sys.Y()
	old, ok := m.m[k]
	m.put(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	sys.Y()
	if v, ok := m.m[k]; ok && v == old {
		m.put(k, new)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	sys.Y()
	if v, ok := m.m[k]; ok && v == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}{}, m.keys...) {
		sys.Y()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

func (m *Map) Clear() { m.m, m.keys = nil, nil }

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	sys.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	sys.Y()
	p.items = append(p.items, x)
}
