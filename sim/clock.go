//go:build go1.21

package verifsim

import (
	"time"
	"unsafe"
)

const (
	unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	wallToInternal int64 = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
)

type timeRepr struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// Now stands for time.Now: a wall clock that may be stepped, and a monotonic reading that may not.
//
//go:norace
func Now() time.Time {
	if rs == nil {
		return time.Now()
	}
	op()
	r := rs
	flush()
	t := cur
	if r.cfg.Replay {
		if d, ok := r.other(t, kClock); ok {
			r.wall += d.c
			r.res.Faults[kClock]++
			r.decs = append(r.decs, d)
		}
	} else if r.chance(r.cfg.PClock, 256) {
		j := int64(r.rnd()%uint64(4e12)) - 2e12 // up to about half an hour either way
		r.wall += j
		r.res.Faults[kClock]++
		r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kClock, c: j})
	}
	mono := r.now()
	wall := r.cfg.Wall0 + r.wall + mono
	sec, ns := wall/1e9, wall%1e9
	if ns < 0 {
		ns += 1e9
		sec--
	}
	var tm time.Time
	tr := (*timeRepr)(unsafe.Pointer(&tm))
	tr.wall = 1<<63 | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(ns)
	tr.ext = mono + 1
	tr.loc = time.Local
	return tm
}

// Since stands for time.Since.
//
//go:norace
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands for time.Until.
//
//go:norace
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep stands for time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	if rs == nil {
		return
	}
	op()
	if d <= 0 {
		return
	}
	t := cur
	flush()
	t.until = rs.now() + int64(d)
	t.sleep = true
	blockOn(unsafe.Pointer(t), "sleep")
	t.sleep = false
}

// Advance lets monotonic time pass for the whole machine (the harness uses it inside stub
// estimators to make a fold take a known time).
//
//go:norace
func Advance(d time.Duration) {
	if rs != nil {
		flush()
		rs.mono += int64(d)
	}
}

// After stands for time.After.
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		Send(ch)(Now())
	})
	return ch
}
