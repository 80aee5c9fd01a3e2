// Package vsync stands in for package sync in the instrumented packages: under the controlled
// scheduler every operation is a scheduling point, outside it passes through to package sync.
package vsync

import (
	"sync"

	"verif/mc/vs"
)

type Locker = sync.Locker
type Map = sync.Map

// Mutex is a sync.Mutex.
type Mutex struct {
	m    sync.Mutex
	held bool
	q    vs.Queue
	in   *vs.Exec
}

func (m *Mutex) sync() {
	if m.in != vs.X { // left over from an earlier execution
		m.in, m.held, m.q = vs.X, false, vs.Queue{}
	}
}

func (m *Mutex) Lock() {
	if !vs.On() {
		m.m.Lock()
		return
	}
	if !vs.Op() {
		return
	}
	m.sync()
	for m.held {
		m.q.Wait("mutex")
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	if !vs.On() {
		return m.m.TryLock()
	}
	if !vs.Op() {
		return true
	}
	m.sync()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !vs.On() {
		m.m.Unlock()
		return
	}
	if vs.Aborted() {
		return
	}
	m.sync()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	m.q.WakeAll()
	vs.Op()
}

// RWMutex is a sync.RWMutex.
type RWMutex struct {
	m       sync.RWMutex
	w       bool
	r       int
	waiting int
	q       vs.Queue
	in      *vs.Exec
}

func (m *RWMutex) sync() {
	if m.in != vs.X {
		m.in, m.w, m.r, m.waiting, m.q = vs.X, false, 0, 0, vs.Queue{}
	}
}

func (m *RWMutex) Lock() {
	if !vs.On() {
		m.m.Lock()
		return
	}
	if !vs.Op() {
		return
	}
	m.sync()
	m.waiting++
	for m.w || m.r > 0 {
		m.q.Wait("rwmutex (write)")
	}
	m.waiting--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if !vs.On() {
		return m.m.TryLock()
	}
	if !vs.Op() {
		return true
	}
	m.sync()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !vs.On() {
		m.m.Unlock()
		return
	}
	if vs.Aborted() {
		return
	}
	m.sync()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
	vs.Op()
}

func (m *RWMutex) RLock() {
	if !vs.On() {
		m.m.RLock()
		return
	}
	if !vs.Op() {
		return
	}
	m.sync()
	for m.w || m.waiting > 0 {
		m.q.Wait("rwmutex (read)")
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	if !vs.On() {
		return m.m.TryRLock()
	}
	if !vs.Op() {
		return true
	}
	m.sync()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if !vs.On() {
		m.m.RUnlock()
		return
	}
	if vs.Aborted() {
		return
	}
	m.sync()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.WakeAll()
	vs.Op()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct {
	w  sync.WaitGroup
	n  int
	q  vs.Queue
	in *vs.Exec
}

func (w *WaitGroup) sync() {
	if w.in != vs.X {
		w.in, w.n, w.q = vs.X, 0, vs.Queue{}
	}
}

func (w *WaitGroup) Add(d int) {
	if !vs.On() {
		w.w.Add(d)
		return
	}
	if !vs.Op() {
		return
	}
	w.sync()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() {
	if !vs.On() {
		w.w.Done()
		return
	}
	w.Add(-1)
}

func (w *WaitGroup) Wait() {
	if !vs.On() {
		w.w.Wait()
		return
	}
	if !vs.Op() {
		return
	}
	w.sync()
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a sync.Once.
type Once struct {
	o       sync.Once
	done    bool
	running bool
	q       vs.Queue
	in      *vs.Exec
}

func (o *Once) Do(f func()) {
	if !vs.On() {
		o.o.Do(f)
		return
	}
	if !vs.Op() {
		return
	}
	if o.in != vs.X {
		o.in, o.running, o.q = vs.X, false, vs.Queue{}
	}
	for o.running {
		o.q.Wait("once")
	}
	if o.done {
		return
	}
	o.running = true
	defer func() {
		o.running = false
		o.done = true
		o.q.WakeAll()
	}()
	f()
}

// OnceFunc is sync.OnceFunc (without the repeated panic).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a sync.Cond.
type Cond struct {
	L    Locker
	once sync.Once
	c    *sync.Cond
	q    vs.Queue
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) real() *sync.Cond {
	c.once.Do(func() { c.c = sync.NewCond(c.L) })
	return c.c
}

func (c *Cond) Wait() {
	if !vs.On() {
		c.real().Wait()
		return
	}
	if vs.Aborted() {
		return
	}
	c.q.Enter()
	c.L.Unlock()
	c.q.Sleep("cond")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vs.On() {
		c.real().Signal()
		return
	}
	if vs.Op() {
		c.q.SignalOne()
	}
}

func (c *Cond) Broadcast() {
	if !vs.On() {
		c.real().Broadcast()
		return
	}
	if vs.Op() {
		c.q.SignalAll()
	}
}

// Pool is a sync.Pool that always keeps what is put into it (under the scheduler), so that sharing of
// pooled objects shows.
type Pool struct {
	New   func() any
	p     sync.Pool
	items []any
	in    *vs.Exec
}

func (p *Pool) Get() any {
	if !vs.On() {
		if v := p.p.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	vs.Op()
	if p.in != vs.X { // a new execution starts with an empty pool
		p.in, p.items = vs.X, nil
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !vs.On() {
		p.p.Put(v)
		return
	}
	vs.Op()
	if p.in != vs.X {
		p.in, p.items = vs.X, nil
	}
	p.items = append(p.items, v)
}
