// Package vsync replaces package sync on the controlled runtime.
package vsync

import (
	"unsafe"
	"vrt"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ held bool }

func obj[T any](p *T) vrt.ObjID { return vrt.Addr(unsafe.Pointer(p)) }

func (m *Mutex) Lock() {
	o := obj(m)
	vrt.Op("Mutex.Lock", []vrt.ObjID{o}, func() bool { return !m.held }, func(s *vrt.Sched, t *vrt.Thread) {
		m.held = true
		s.Acquire(t, o)
	})
}
func (m *Mutex) TryLock() bool {
	o := obj(m)
	ok := false
	vrt.Op("Mutex.TryLock", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		if !m.held {
			m.held, ok = true, true
			s.Acquire(t, o)
		}
	})
	return ok
}
func (m *Mutex) Unlock() {
	o := obj(m)
	bad := false
	vrt.Op("Mutex.Unlock", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		bad = !m.held
		m.held = false
		s.Release(t, o)
	})
	if bad {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is sync.RWMutex (writers may be starved or not: both are explored).
type RWMutex struct {
	w bool
	r int
	a byte
}

func (m *RWMutex) Lock() {
	o, ro := obj(m), obj(&m.a)
	vrt.Op("RWMutex.Lock", []vrt.ObjID{o}, func() bool { return !m.w && m.r == 0 }, func(s *vrt.Sched, t *vrt.Thread) {
		m.w = true
		s.Acquire(t, o)
		s.Acquire(t, ro)
	})
}
func (m *RWMutex) TryLock() bool {
	o, ro := obj(m), obj(&m.a)
	ok := false
	vrt.Op("RWMutex.TryLock", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		if !m.w && m.r == 0 {
			m.w, ok = true, true
			s.Acquire(t, o)
			s.Acquire(t, ro)
		}
	})
	return ok
}
func (m *RWMutex) Unlock() {
	o := obj(m)
	bad := false
	vrt.Op("RWMutex.Unlock", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		bad = !m.w
		m.w = false
		s.Release(t, o)
	})
	if bad {
		panic("sync: Unlock of unlocked RWMutex")
	}
}
func (m *RWMutex) RLock() {
	o := obj(m)
	vrt.Op("RWMutex.RLock", []vrt.ObjID{o}, func() bool { return !m.w }, func(s *vrt.Sched, t *vrt.Thread) {
		m.r++
		s.Acquire(t, o)
	})
}
func (m *RWMutex) TryRLock() bool {
	o := obj(m)
	ok := false
	vrt.Op("RWMutex.TryRLock", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		if !m.w {
			m.r++
			ok = true
			s.Acquire(t, o)
		}
	})
	return ok
}
func (m *RWMutex) RUnlock() {
	o, ro := obj(m), obj(&m.a)
	bad := false
	vrt.Op("RWMutex.RUnlock", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		bad = m.r <= 0
		m.r--
		s.Release(t, ro)
	})
	if bad {
		panic("sync: RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	o := obj(w)
	bad := false
	vrt.Op("WaitGroup.Add", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		w.n += d
		bad = w.n < 0
		s.Release(t, o)
	})
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	o := obj(w)
	vrt.Op("WaitGroup.Wait", []vrt.ObjID{o}, func() bool { return w.n == 0 }, func(s *vrt.Sched, t *vrt.Thread) { s.Acquire(t, o) })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.GoNamed("wg", func() { defer w.Done(); f() })
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

// Cond is sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	o := obj(c)
	woken := new(bool)
	vrt.Op("Cond.Wait", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) { c.waiters = append(c.waiters, woken) })
	c.L.Unlock()
	vrt.Op("Cond.Wait (blocked)", []vrt.ObjID{o}, func() bool { return *woken }, func(s *vrt.Sched, t *vrt.Thread) { s.Acquire(t, o) })
	c.L.Lock()
}
func (c *Cond) Signal() {
	o := obj(c)
	vrt.Op("Cond.Signal", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		s.Release(t, o)
		if len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
		}
	})
}
func (c *Cond) Broadcast() {
	o := obj(c)
	vrt.Op("Cond.Broadcast", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		s.Release(t, o)
		for _, w := range c.waiters {
			*w = true
		}
		c.waiters = nil
	})
}

// Map is sync.Map.
type Map struct{ m map[any]any }

func (m *Map) op(what string, f func()) {
	o := obj(m)
	vrt.Op("Map."+what, []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		s.Acquire(t, o)
		if m.m == nil {
			m.m = map[any]any{}
		}
		f()
		s.Release(t, o)
	})
}
func (m *Map) Load(k any) (v any, ok bool) { m.op("Load", func() { v, ok = m.m[k] }); return }
func (m *Map) Store(k, v any)              { m.op("Store", func() { m.m[k] = v }) }
func (m *Map) LoadOrStore(k, v any) (a any, loaded bool) {
	m.op("LoadOrStore", func() {
		if a, loaded = m.m[k]; !loaded {
			m.m[k] = v
			a = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k any) (v any, ok bool) {
	m.op("LoadAndDelete", func() { v, ok = m.m[k]; delete(m.m, k) })
	return
}
func (m *Map) Delete(k any) { m.op("Delete", func() { delete(m.m, k) }) }
func (m *Map) Swap(k, v any) (p any, loaded bool) {
	m.op("Swap", func() { p, loaded = m.m[k]; m.m[k] = v })
	return
}
func (m *Map) CompareAndSwap(k, old, new any) (ok bool) {
	m.op("CompareAndSwap", func() {
		if v, in := m.m[k]; in && v == old {
			m.m[k] = new
			ok = true
		}
	})
	return
}
func (m *Map) Range(f func(k, v any) bool) {
	var c map[any]any
	m.op("Range", func() {
		c = map[any]any{}
		for k, v := range m.m {
			c[k] = v
		}
	})
	for k, v := range vrt.MapRange(c) {
		if !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool: Get may return any pooled item or, at any time, none.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	o := obj(p)
	vrt.Op("Pool.Put", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) {
		p.items = append(p.items, x)
		s.Release(t, o)
	})
}
func (p *Pool) Get() any {
	o := obj(p)
	var r any
	vrt.Op("Pool.Get", []vrt.ObjID{o}, nil, func(s *vrt.Sched, t *vrt.Thread) { s.Acquire(t, o) })
	if n := len(p.items); n > 0 {
		if c := vrt.Choose(n+1, "Pool.Get"); c < n {
			r = p.items[c]
			p.items = append(p.items[:c:c], p.items[c+1:]...)
		}
	}
	if r == nil && p.New != nil {
		r = p.New()
	}
	return r
}
