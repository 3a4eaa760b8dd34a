//go:build go1.21

package verifsim

import "unsafe"

// Simulated stand-ins for package sync. Happens-before edges follow the Go memory model, as
// the real package reports them to the race detector.

// Locker stands for sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex stands for sync.Mutex.
type Mutex struct {
	ep     int64
	locked bool
}

//go:norace
func (m *Mutex) sync() {
	if m.ep != epoch {
		m.ep = epoch
		m.locked = false
	}
}

//go:norace
func (m *Mutex) Lock() {
	if rs == nil {
		return
	}
	op()
	m.sync()
	for m.locked {
		blockOn(unsafe.Pointer(m), "mutex")
	}
	m.locked = true
	rAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if rs == nil {
		return true
	}
	op()
	m.sync()
	if m.locked {
		return false
	}
	m.locked = true
	rAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if rs == nil {
		return
	}
	m.sync()
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	rRelease(unsafe.Pointer(m))
	m.locked = false
	wakeAll(unsafe.Pointer(m))
	op()
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	ep       int64
	w        bool
	readers  int
	wwait    int
	rsy, wsy int64
}

//go:norace
func (m *RWMutex) sync() {
	if m.ep != epoch {
		*m = RWMutex{ep: epoch}
	}
}

//go:norace
func (m *RWMutex) Lock() {
	if rs == nil {
		return
	}
	op()
	m.sync()
	m.wwait++
	for m.w || m.readers > 0 {
		blockOn(unsafe.Pointer(m), "rwmutex")
	}
	m.wwait--
	m.w = true
	rAcquire(unsafe.Pointer(&m.rsy))
	rAcquire(unsafe.Pointer(&m.wsy))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if rs == nil {
		return true
	}
	op()
	m.sync()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rAcquire(unsafe.Pointer(&m.rsy))
	rAcquire(unsafe.Pointer(&m.wsy))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if rs == nil {
		return
	}
	m.sync()
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	rRelease(unsafe.Pointer(&m.rsy))
	m.w = false
	wakeAll(unsafe.Pointer(m))
	op()
}

//go:norace
func (m *RWMutex) RLock() {
	if rs == nil {
		return
	}
	op()
	m.sync()
	for m.w || m.wwait > 0 && m.readers > 0 {
		blockOn(unsafe.Pointer(m), "rwmutex (read)")
	}
	m.readers++
	rAcquire(unsafe.Pointer(&m.rsy))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if rs == nil {
		return true
	}
	op()
	m.sync()
	if m.w {
		return false
	}
	m.readers++
	rAcquire(unsafe.Pointer(&m.rsy))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if rs == nil {
		return
	}
	m.sync()
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	rReleaseMerge(unsafe.Pointer(&m.wsy))
	m.readers--
	wakeAll(unsafe.Pointer(m))
	op()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct {
	ep   int64
	n    int
	wait int
	sema int64
}

//go:norace
func (w *WaitGroup) sync() {
	if w.ep != epoch {
		*w = WaitGroup{ep: epoch}
	}
}

//go:norace
func (w *WaitGroup) Add(delta int) {
	if rs == nil {
		return
	}
	op()
	w.sync()
	if delta < 0 {
		rReleaseMerge(unsafe.Pointer(w))
	}
	w.n += delta
	if delta > 0 && w.n == delta {
		rRead(unsafe.Pointer(&w.sema))
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(unsafe.Pointer(w))
	}
	if delta < 0 {
		op()
	}
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if rs == nil {
		return
	}
	op()
	w.sync()
	for first := true; w.n > 0; first = false {
		if first && w.wait == 0 {
			rWrite(unsafe.Pointer(&w.sema))
		}
		w.wait++
		blockOn(unsafe.Pointer(w), "wait group")
		w.wait--
	}
	rAcquire(unsafe.Pointer(w))
}

// Go is WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands for sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) Do(f func()) {
	if rs == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.set()
		f()
	}
}

//go:norace
func (o *Once) set() { o.done = true }

// OnceFunc stands for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues stands for sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Cond stands for sync.Cond.
type Cond struct {
	L  Locker
	ep int64
	q  []*condWaiter
}

type condWaiter struct {
	fired bool
	sy    int64
}

// NewCond stands for sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) sync() {
	if c.ep != epoch {
		c.ep = epoch
		c.q = nil
	}
}

//go:norace
func (c *Cond) Wait() {
	if rs == nil {
		panic("verifsim: Cond.Wait outside a run")
	}
	c.sync()
	w := &condWaiter{}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.fired {
		blockOn(unsafe.Pointer(w), "condition variable")
	}
	rAcquire(unsafe.Pointer(&w.sy))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if rs == nil {
		return
	}
	op()
	c.sync()
	if len(c.q) > 0 {
		c.fire(c.q[0])
		c.q = c.q[1:]
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if rs == nil {
		return
	}
	op()
	c.sync()
	for _, w := range c.q {
		c.fire(w)
	}
	c.q = nil
}

//go:norace
func (c *Cond) fire(w *condWaiter) {
	w.fired = true
	rRelease(unsafe.Pointer(&w.sy))
	wakeAll(unsafe.Pointer(w))
}

// Pool stands for sync.Pool: last in first out, emptied between runs, dropping objects at random.
type Pool struct {
	New   func() interface{}
	ep    int64
	items []*poolItem
}

type poolItem struct {
	v  interface{}
	sy int64
}

//go:norace
func (p *Pool) sync() {
	if p.ep != epoch {
		p.ep = epoch
		p.items = nil
	}
}

//go:norace
func (p *Pool) Get() interface{} {
	if rs != nil {
		p.sync()
		if n := len(p.items); n > 0 {
			it := p.items[n-1]
			p.items[n-1] = nil
			p.items = p.items[:n-1]
			rAcquire(unsafe.Pointer(&it.sy))
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil || rs == nil {
		return
	}
	p.sync()
	it := &poolItem{v: x}
	rRelease(unsafe.Pointer(&it.sy))
	p.items = append(p.items, it)
}
