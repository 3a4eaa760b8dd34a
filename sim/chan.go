//go:build go1.21

package verifsim

import (
	"unsafe"
)

// Channels: the real channel value is only an identity (and a source of foreign messages); the
// queue, the waiters and the closed flag live here.

type waiter struct {
	t      *Task
	val    interface{}
	ok     bool
	fired  bool
	closed bool // woken by close
	sel    *selState
	idx    int
	a, b   int64 // sync addresses: a released by the waiter, b by its partner
}

type selState struct {
	fired bool
	idx   int
}

type chanState struct {
	key    unsafe.Pointer
	ref    interface{} // keeps the real channel alive
	cap    int
	buf    []interface{}
	slots  []int64 // sync address per buffer slot
	sx, rx int
	closed bool
	csy    int64
	recvq  []*waiter
	sendq  []*waiter
}

type chanTable struct{ s []*chanState }

//go:norace
func chanOf(key unsafe.Pointer, cap int, ref func() interface{}) *chanState {
	t := &rs.chans
	if len(t.s) == 0 {
		t.s = make([]*chanState, 64)
	}
	h := uint64(uintptr(key)) * 0x9e3779b97f4a7c15 >> 20
	for i := 0; ; i++ {
		if i > len(t.s)/2 {
			old := t.s
			t.s = make([]*chanState, 2*len(old))
			for _, c := range old {
				if c != nil {
					g := uint64(uintptr(c.key)) * 0x9e3779b97f4a7c15 >> 20
					for j := 0; ; j++ {
						k := (g + uint64(j)) % uint64(len(t.s))
						if t.s[k] == nil {
							t.s[k] = c
							break
						}
					}
				}
			}
			i = 0
		}
		k := (h + uint64(i)) % uint64(len(t.s))
		if t.s[k] == nil {
			c := &chanState{key: key, cap: cap, ref: ref()}
			if cap > 0 {
				c.slots = make([]int64, cap)
			}
			t.s[k] = c
			return c
		}
		if t.s[k].key == key {
			return t.s[k]
		}
	}
}

// keyOf gives the address of the channel's runtime object.
//
//go:norace
func keyOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

//go:norace
func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

//go:norace
func fire(w *waiter) {
	w.fired = true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
	}
	rs.wakeTask(w.t)
}

//go:norace
func (c *chanState) put(v interface{}) {
	if len(c.slots) > 0 {
		s := &c.slots[c.sx]
		rAcquire(unsafe.Pointer(s))
		rRelease(unsafe.Pointer(s))
		c.sx = (c.sx + 1) % len(c.slots)
	}
	c.buf = append(c.buf, v)
}

//go:norace
func (c *chanState) get() interface{} {
	v := c.buf[0]
	c.buf[0] = nil
	c.buf = c.buf[1:]
	if len(c.slots) > 0 {
		s := &c.slots[c.rx]
		rAcquire(unsafe.Pointer(s))
		rRelease(unsafe.Pointer(s))
		c.rx = (c.rx + 1) % len(c.slots)
	}
	return v
}

// trySend: done, if it could be done now.
//
//go:norace
func (c *chanState) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if c.cap == 0 {
		w := popWaiter(&c.recvq)
		if w == nil {
			return false
		}
		rAcquire(unsafe.Pointer(&w.a))
		w.val, w.ok = v, true
		rRelease(unsafe.Pointer(&w.b))
		fire(w)
		return true
	}
	if len(c.buf) >= c.cap {
		return false
	}
	c.put(v)
	if w := popWaiter(&c.recvq); w != nil {
		// the message goes through the buffer slot to the oldest receiver
		x := c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		if len(c.slots) > 0 {
			c.rx = (c.rx + 1) % len(c.slots)
		}
		w.val, w.ok = x, true
		rRelease(unsafe.Pointer(&w.b))
		fire(w)
	}
	return true
}

//go:norace
func (c *chanState) tryRecv() (v interface{}, ok, done bool) {
	if c.cap == 0 {
		if w := popWaiter(&c.sendq); w != nil {
			rAcquire(unsafe.Pointer(&w.a))
			rRelease(unsafe.Pointer(&w.b))
			v = w.val
			w.ok = true
			fire(w)
			return v, true, true
		}
	} else if len(c.buf) > 0 {
		v = c.get()
		if w := popWaiter(&c.sendq); w != nil {
			rAcquire(unsafe.Pointer(&w.a))
			// the sender's message enters the buffer: ordered through the slot
			if len(c.slots) > 0 {
				s := &c.slots[c.sx]
				rRelease(unsafe.Pointer(s))
				c.sx = (c.sx + 1) % len(c.slots)
			}
			c.buf = append(c.buf, w.val)
			rRelease(unsafe.Pointer(&w.b))
			w.ok = true
			fire(w)
		}
		return v, true, true
	}
	if c.closed {
		rAcquire(unsafe.Pointer(&c.csy))
		return nil, false, true
	}
	return nil, false, false
}

//go:norace
func chanSend(c *chanState, v interface{}) {
	op()
	if c == nil {
		for {
			blockOn(unsafe.Pointer(&nilChan), "send on nil channel")
		}
	}
	if c.trySend(v) {
		op()
		return
	}
	w := &waiter{t: cur, val: v}
	rRelease(unsafe.Pointer(&w.a))
	c.sendq = append(c.sendq, w)
	for !w.fired {
		blockOn(unsafe.Pointer(w), "channel send")
	}
	if w.closed {
		panic("send on closed channel")
	}
	rAcquire(unsafe.Pointer(&w.b))
}

var nilChan int64

//go:norace
func chanRecv(c *chanState, real func() (interface{}, bool, bool)) (interface{}, bool) {
	op()
	if c == nil {
		for {
			blockOn(unsafe.Pointer(&nilChan), "receive from nil channel")
		}
	}
	if v, ok, done := c.tryRecv(); done {
		op()
		return v, ok
	}
	if v, ok, done := real(); done {
		return v, ok
	}
	w := &waiter{t: cur}
	rRelease(unsafe.Pointer(&w.a))
	c.recvq = append(c.recvq, w)
	t := cur
	t.poll = func() bool {
		if w.fired {
			return false
		}
		v, ok, done := real()
		if done {
			w.val, w.ok = v, ok
			fire(w)
			for i, x := range c.recvq {
				if x == w {
					var q []*waiter
					for j, y := range c.recvq {
						if j != i {
							q = append(q, y)
						}
					}
					c.recvq = q
					break
				}
			}
		}
		return done
	}
	for !w.fired {
		blockOn(unsafe.Pointer(w), "channel receive")
	}
	t.poll = nil
	rAcquire(unsafe.Pointer(&w.b))
	if w.closed {
		rAcquire(unsafe.Pointer(&c.csy))
		return nil, false
	}
	return w.val, w.ok
}

//go:norace
func chanClose(c *chanState) {
	if c == nil {
		panic("close of nil channel")
	}
	op()
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	rRelease(unsafe.Pointer(&c.csy))
	for w := popWaiter(&c.recvq); w != nil; w = popWaiter(&c.recvq) {
		w.closed = true
		fire(w)
	}
	for w := popWaiter(&c.sendq); w != nil; w = popWaiter(&c.sendq) {
		w.closed = true
		fire(w)
	}
	op()
}

// ---- generic front ends used by the rewritten code

//go:norace
func lookup[T any](ch chan T) *chanState {
	if ch == nil {
		return nil
	}
	return chanOf(keyOf(ch), cap(ch), func() interface{} { return ch })
}

//go:norace
func lookupS[T any](ch chan<- T) *chanState {
	if ch == nil {
		return nil
	}
	return chanOf(keyOf(ch), cap(ch), func() interface{} { return ch })
}

//go:norace
func lookupR[T any](ch <-chan T) *chanState {
	if ch == nil {
		return nil
	}
	return chanOf(keyOf(ch), cap(ch), func() interface{} { return ch })
}

// Send stands for ch <- v: Send(ch)(v).
//
//go:norace
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if rs == nil {
			ch <- v
			return
		}
		chanSend(lookupS(ch), v)
	}
}

//go:norace
func tryReal[T any](ch <-chan T) func() (interface{}, bool, bool) {
	return func() (interface{}, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
}

//go:norace
func conv[T any](v interface{}) (t T) {
	if v != nil {
		t = v.(T)
	}
	return
}

// Recv stands for <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	if rs == nil {
		return <-ch
	}
	v, _ := chanRecv(lookupR(ch), tryReal(ch))
	return conv[T](v)
}

// Recv2 stands for v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if rs == nil {
		v, ok := <-ch
		return v, ok
	}
	v, ok := chanRecv(lookupR(ch), tryReal(ch))
	return conv[T](v), ok
}

// Zero is the zero element of a channel.
//
//go:norace
func Zero[T any](ch <-chan T) (v T) { return }

// Close stands for close(ch).
//
//go:norace
func Close[T any](ch chan<- T) {
	if rs == nil {
		close(ch)
		return
	}
	chanClose(lookupS(ch))
}

// ChanLen stands for len(ch).
//
//go:norace
func ChanLen[T any](ch <-chan T) int {
	if rs == nil || ch == nil {
		return len(ch)
	}
	op()
	return len(lookupR(ch).buf) + len(ch)
}

// ---- select

// SelCase is one case of a select statement.
type SelCase interface {
	prep() (*chanState, bool, interface{}, func() (interface{}, bool, bool))
	got(v interface{}, ok bool)
}

// RCase is a receive case.
type RCase[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
}

// RecvCase makes a receive case.
//
//go:norace
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

//go:norace
func (c *RCase[T]) prep() (*chanState, bool, interface{}, func() (interface{}, bool, bool)) {
	return lookupR(c.ch), false, nil, tryReal(c.ch)
}

//go:norace
func (c *RCase[T]) got(v interface{}, ok bool) { c.Val, c.OK = conv[T](v), ok }

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
}

// SendCase makes a send case: SendCase(ch)(v).
//
//go:norace
func SendCase[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, v: v} }
}

//go:norace
func (c *SCase[T]) prep() (*chanState, bool, interface{}, func() (interface{}, bool, bool)) {
	return lookupS(c.ch), true, c.v, nil
}

//go:norace
func (c *SCase[T]) got(v interface{}, ok bool) {}

type selItem struct {
	c    *chanState
	send bool
	v    interface{}
	real func() (interface{}, bool, bool)
	w    *waiter
}

// Select stands for a select statement; the result is the index of the case, -1 for default.
//
//go:norace
func Select(hasDefault bool, cases ...SelCase) int {
	if rs == nil {
		panic("verifsim: select outside a simulated run")
	}
	op()
	items := make([]selItem, len(cases))
	for i, k := range cases {
		it := &items[i]
		it.c, it.send, it.v, it.real = k.prep()
	}
	var ready []int
	for i := range items {
		it := &items[i]
		if it.c == nil {
			continue
		}
		if it.send {
			if it.c.closed || hasWaiter(it.c.recvq) || len(it.c.buf) < it.c.cap {
				ready = append(ready, i)
			}
		} else if len(it.c.buf) > 0 || it.c.cap == 0 && hasWaiter(it.c.sendq) || it.c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = choose(kSelect, len(ready))
		}
		i := ready[k]
		it := &items[i]
		if it.send {
			it.c.trySend(it.v)
		} else {
			v, ok, _ := it.c.tryRecv()
			cases[i].got(v, ok)
		}
		op()
		return i
	}
	for i := range items {
		if it := &items[i]; !it.send && it.c != nil {
			if v, ok, done := it.real(); done {
				cases[i].got(v, ok)
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{}
	t := cur
	for i := range items {
		it := &items[i]
		if it.c == nil {
			continue
		}
		it.w = &waiter{t: t, val: it.v, sel: st, idx: i}
		rRelease(unsafe.Pointer(&it.w.a))
		if it.send {
			it.c.sendq = append(it.c.sendq, it.w)
		} else {
			it.c.recvq = append(it.c.recvq, it.w)
		}
	}
	t.poll = func() bool {
		if st.fired {
			return false
		}
		for i := range items {
			if it := &items[i]; !it.send && it.c != nil {
				if v, ok, done := it.real(); done {
					it.w.val, it.w.ok = v, ok
					fire(it.w)
					return true
				}
			}
		}
		return false
	}
	for !st.fired {
		blockOn(unsafe.Pointer(st), "select")
	}
	t.poll = nil
	it := &items[st.idx]
	rAcquire(unsafe.Pointer(&it.w.b))
	if it.w.closed {
		if it.send {
			panic("send on closed channel")
		}
		rAcquire(unsafe.Pointer(&it.c.csy))
		cases[st.idx].got(nil, false)
		return st.idx
	}
	if !it.send {
		cases[st.idx].got(it.w.val, it.w.ok)
	}
	return st.idx
}

// Forever stands for select {}.
//
//go:norace
func Forever() {
	for {
		blockOn(unsafe.Pointer(&nilChan), "select {}")
	}
}

// choose takes a recorded decision among n alternatives; 0 is the default.
//
//go:norace
func choose(kind, n int) int {
	r := rs
	flush()
	t := cur
	if r.cfg.Replay {
		if d, ok := r.other(t, kind); ok && int(d.c) < n {
			r.res.Faults[kind]++
			r.decs = append(r.decs, d)
			return int(d.c)
		}
		return 0
	}
	if r.cfg.Strategy == SSeq {
		return 0
	}
	k := r.intn(n)
	if k != 0 {
		r.res.Faults[kind]++
		r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kind, c: int64(k)})
	}
	return k
}

// ChanIter returns what the rewritten "for v := range ch" needs.
//
//go:norace
func ChanIter[T any](ch <-chan T) (<-chan T, T) {
	var z T
	return ch, z
}
