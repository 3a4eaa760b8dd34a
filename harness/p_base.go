//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"verifsim"

	"github.com/pa-m/randomkit"
	"github.com/pa-m/sklearn/base"
)

// ---------------------------------------------------------------- C01

func init() {
	register("C01",
		&Scenario{Name: "single", Weight: 6, Race: true, Leak: true, F: c01single},
		&Scenario{Name: "nested", Weight: 2, Race: true, Leak: true, F: c01nested},
		&Scenario{Name: "concurrent-callers", Weight: 2, Race: true, Leak: true, F: c01concurrent},
	)
}

func yields(n int) {
	for i := 0; i < n; i++ {
		verifsim.Y()
	}
}

// parCall makes one Parallelize call with callback bodies of the given lengths and returns the
// marks the callbacks left; it logs what happened under the call number id.
func parCall(id int64, threads, n int, work []int, marks []int, inner func(th, start, end int)) {
	verifsim.Log("call", id, int64(threads), int64(n))
	base.Parallelize(threads, n, func(th, start, end int) {
		verifsim.Log("begin", id, int64(th), int64(start)<<32|int64(end))
		yields(work[(th&0xffff)%len(work)])
		if inner != nil {
			inner(th, start, end)
		}
		for i := start; i < end; i++ {
			if i >= 0 && i < n {
				marks[i]++
			}
			verifsim.Y()
		}
		yields(work[(start&0xffff)%len(work)])
		verifsim.Log("end", id, int64(th), int64(start)<<32|int64(end))
	})
	verifsim.Log("return", id, 0, 0)
	for range marks { // reading them here makes missing visibility a data race
		verifsim.Y()
	}
}

func c01judge(c *C, res *verifsim.Result, id int64, threads, n int, marks []int, cpus int) {
	eff := threads
	if eff <= 0 {
		eff = cpus
	}
	type iv struct{ a, b int64 }
	open := map[int64]bool{}
	running, returned, max := 0, false, 0
	covered := make([]int, n)
	for _, e := range res.Events {
		if e.A != id {
			continue
		}
		start, end := e.C>>32, int64(int32(e.C))
		switch e.Kind {
		case "begin":
			c.Check(!returned, "late-callback", "Parallelize(%d,%d): a callback started after the call had returned", threads, n)
			c.Check(start >= 0 && start <= end && end <= int64(n), "bad-range", "Parallelize(%d,%d): callback got range [%d,%d)", threads, n, start, end)
			c.Check(e.B >= 0 && e.B < int64(eff), "bad-worker", "Parallelize(%d,%d) on %d CPUs: callback got worker number %d, effective worker count is %d", threads, n, cpus, e.B, eff)
			c.Check(!open[e.B], "shared-worker", "Parallelize(%d,%d): two callbacks run at once with worker number %d", threads, n, e.B)
			open[e.B] = true
			running++
			if running > max {
				max = running
			}
			for i := start; i < end; i++ {
				covered[i]++
			}
		case "end":
			c.Check(!returned, "early-return", "Parallelize(%d,%d): the call returned before the callback of worker %d ended", threads, n, e.B)
			open[e.B] = false
			running--
		case "return":
			c.Check(running == 0, "early-return", "Parallelize(%d,%d) returned while %d callbacks were running", threads, n, running)
			returned = true
		}
	}
	if max > 1 {
		c.Probe("two or more callbacks at once")
	}
	for i := range covered {
		c.Check(covered[i] == 1, "coverage", "Parallelize(%d,%d) on %d CPUs: index %d handed out %d times", threads, n, cpus, i, covered[i])
		c.Check(marks[i] == 1, "lost-write", "Parallelize(%d,%d) on %d CPUs: index %d processed %d times as seen by the caller", threads, n, cpus, i, marks[i])
	}
}

func c01args(r *Rng) (threads, n int, work []int) {
	threads = r.PickI(-5, -1, 0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64)
	switch r.Intn(5) {
	case 0:
		n = r.Intn(5)
	case 1, 2:
		n = r.Intn(40)
	case 3:
		n = r.Intn(200)
	default: // around multiples of the worker count
		t := threads
		if t <= 0 {
			t = r.PickI(2, 3, 4, 8)
		}
		n = t*r.Intn(5) + r.PickI(-1, 0, 1, 2)
		if n < 0 {
			n = 0
		}
	}
	if r.Chance(40) {
		n = 200 + r.Intn(4000)
	}
	if r.Chance(60) { // many more workers than CPUs
		threads = r.PickI(65, 100, 129, 257, 1000, 1025, 3000)
		n = threads*r.Intn(4) + r.Intn(200)
	}
	work = make([]int, 1+r.Intn(8))
	for i := range work {
		work[i] = r.PickI(0, 0, 1, 5, 40)
	}
	return
}

func c01single(c *C) {
	threads, n, work := c01args(c.R)
	c.Desc("Parallelize(%d,%d)", threads, n)
	for k := 0; k < 6; k++ {
		marks := make([]int, n)
		cfg := c.SimCfg()
		if cfg.MeanQ > 30 {
			cfg.MeanQ = 30
		}
		seen := make([]int, n)
		res := c.SimWith("parallelize", cfg, func() {
			parCall(1, threads, n, work, marks, nil)
			for i := range marks {
				seen[i] = marks[i]
			}
		})
		c01judge(c, res, 1, threads, n, seen, c.rec[len(c.rec)-1].Cfg.NumCPU)
	}
}

func c01nested(c *C) {
	threads, n, work := c01args(c.R)
	n %= 24
	t2, n2, work2 := c01args(c.R)
	n2 %= 12
	c.Desc("Parallelize(%d,%d) around Parallelize(%d,%d)", threads, n, t2, n2)
	for k := 0; k < 4; k++ {
		cfg := c.SimCfg()
		if cfg.MeanQ > 30 {
			cfg.MeanQ = 30
		}
		cpus := cfg.NumCPU
		marks, seen := make([]int, n), make([]int, n)
		inner := make([][]int, n)
		for i := range inner {
			inner[i] = make([]int, n2)
		}
		called := make([]bool, n)
		res := c.SimWith("nested", cfg, func() {
			parCall(1, threads, n, work, marks, func(th, start, end int) {
				for i := start; i < end && i < n; i++ {
					if i >= 0 && !called[i] {
						called[i] = true
						parCall(100+int64(i), t2, n2, work2, inner[i], nil)
					}
				}
			})
			copy(seen, marks)
		})
		cpus = c.rec[len(c.rec)-1].Cfg.NumCPU
		c01judge(c, res, 1, threads, n, seen, cpus)
		for i := range inner {
			c01judge(c, res, 100+int64(i), t2, n2, inner[i], cpus)
		}
	}
}

func c01concurrent(c *C) {
	k := c.R.Range(2, 4)
	type arg struct {
		threads, n int
		work       []int
	}
	args := make([]arg, k)
	for i := range args {
		args[i].threads, args[i].n, args[i].work = c01args(c.R)
		args[i].n %= 60
	}
	c.Desc("%d concurrent callers", k)
	for rep := 0; rep < 4; rep++ {
		cfg := c.SimCfg()
		if cfg.MeanQ > 30 {
			cfg.MeanQ = 30
		}
		marks := make([][]int, k)
		for i := range marks {
			marks[i] = make([]int, args[i].n)
		}
		res := c.SimWith("concurrent", cfg, func() {
			var wg verifsim.WaitGroup
			for i := 0; i < k; i++ {
				i := i
				wg.Add(1)
				verifsim.Go(func() {
					a := args[i]
					parCall(int64(i+1), a.threads, a.n, a.work, marks[i], nil)
					wg.Done()
				})
			}
			wg.Wait()
		})
		cpus := c.rec[len(c.rec)-1].Cfg.NumCPU
		for i, a := range args {
			c01judge(c, res, int64(i+1), a.threads, a.n, marks[i], cpus)
		}
	}
}

// ---------------------------------------------------------------- C07

func init() {
	register("C07", &Scenario{Name: "linearizable", Race: true, F: c07})
}

// srcOp is one operation on a LockedSource and what it returned.
type srcOp struct {
	kind  string // draw, seed, locked, clone
	seed  uint64
	k     int // draws (locked, clone)
	vals  []uint64
	call  int64
	ret   int64
	task  int
	reads bool
	// locked: sub-steps; a reseed may happen after `at` draws
	at int
}

func (o *srcOp) String() string {
	return fmt.Sprintf("task %d %s(seed=%d k=%d at=%d) -> %v [%d,%d]", o.task, o.kind, o.seed, o.k, o.at, o.vals, o.call, o.ret)
}

// stream is the reference: the values an unshared generator yields after being seeded.
type streamCache map[uint64][]uint64

func (s streamCache) at(seed uint64, i int) uint64 {
	v := s[seed]
	if len(v) <= i {
		var g randomkit.RKState
		g.Seed(seed)
		n := i + 64
		v = make([]uint64, n)
		for j := range v {
			v[j] = g.Uint64()
		}
		s[seed] = v
	}
	return v[i]
}

type srcState struct {
	seed uint64
	pos  int
}

// apply returns the state after o if o's outputs fit s.
func (o *srcOp) apply(st streamCache, s srcState) (srcState, bool) {
	switch o.kind {
	case "draw":
		return srcState{s.seed, s.pos + 1}, st.at(s.seed, s.pos) == o.vals[0]
	case "seed":
		return srcState{o.seed, 0}, true
	case "locked":
		for i := 0; i < o.k; i++ {
			if i == o.at {
				s = srcState{o.seed, 0}
			}
			if st.at(s.seed, s.pos) != o.vals[i] {
				return s, false
			}
			s.pos++
		}
		return s, true
	case "clone":
		for i, v := range o.vals {
			if st.at(s.seed, s.pos+i) != v {
				return s, false
			}
		}
		return s, true
	}
	return s, false
}

// linearizable searches for a legal order (Wing and Gong, with memoisation).
func linearizable(ops []*srcOp, st streamCache, init srcState) bool {
	type key struct {
		done uint64
		s    srcState
	}
	bad := map[key]bool{}
	var rec func(done uint64, s srcState) bool
	rec = func(done uint64, s srcState) bool {
		if done == 1<<uint(len(ops))-1 {
			return true
		}
		k := key{done, s}
		if bad[k] {
			return false
		}
		minRet := int64(1) << 62
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.call >= minRet {
				continue
			}
			if s2, ok := o.apply(st, s); ok && rec(done|1<<uint(i), s2) {
				return true
			}
		}
		bad[k] = true
		return false
	}
	return rec(0, init)
}

func c07(c *C) {
	r := c.R
	ntask := r.Range(2, 4)
	perTask := r.Range(1, 5)
	seed0 := r.Seed()
	pre := 0
	if r.Bool() { // start near the point where the generator refills its block
		pre = r.PickI(300, 310, 311, 620, 622, 623)
	}
	plan := make([][]*srcOp, ntask)
	for t := range plan {
		for i := 0; i < perTask; i++ {
			o := &srcOp{task: t, at: -1}
			switch x := r.Intn(10); {
			case x < 4:
				o.kind = "draw"
			case x < 5:
				o.kind, o.seed = "seed", r.Seed()
			case x < 8:
				o.kind, o.k = "locked", r.Range(1, 4)
				if r.Chance(4) {
					o.at, o.seed = r.Intn(o.k), r.Seed()
				}
			default:
				o.kind, o.k = "clone", r.Range(1, 4)
			}
			plan[t] = append(plan[t], o)
		}
	}
	c.Desc("%d tasks x %d operations, seed %d after %d draws", ntask, perTask, seed0, pre)
	for rep := 0; rep < 5; rep++ {
		cfg := c.SimCfg()
		if cfg.MeanQ > 10 {
			cfg.MeanQ = 10
		}
		tasks := make([][]*srcOp, ntask)
		for t := range plan {
			for _, o := range plan[t] {
				o2 := *o
				tasks[t] = append(tasks[t], &o2)
			}
		}
		c.SimWith("source", cfg, func() {
			src := base.NewLockedSource(seed0)
			for i := 0; i < pre; i++ {
				src.Uint64()
			}
			var wg verifsim.WaitGroup
			for t := 0; t < ntask; t++ {
				ops := tasks[t]
				wg.Add(1)
				verifsim.Go(func() {
					for _, o := range ops {
						o.call = verifsim.Step()
						verifsim.Y()
						switch o.kind {
						case "draw":
							o.vals = append(o.vals, src.Uint64())
						case "seed":
							src.Seed(o.seed)
						case "locked":
							src.WithLock(func(s base.Source) {
								for i := 0; i < o.k; i++ {
									verifsim.Y()
									if i == o.at {
										s.Seed(o.seed)
									}
									o.vals = append(o.vals, s.Uint64())
								}
							})
						case "clone":
							cl := src.SourceClone()
							o.ret = verifsim.Step()
							verifsim.Y()
							for i := 0; i < o.k; i++ {
								o.vals = append(o.vals, cl.Uint64())
							}
						}
						verifsim.Y()
						if o.ret == 0 {
							o.ret = verifsim.Step()
						}
					}
					wg.Done()
				})
			}
			wg.Wait()
		})
		var all []*srcOp
		overlap := false
		for _, t := range tasks {
			all = append(all, t...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].call < all[j].call })
		for i := range all {
			for j := i + 1; j < len(all); j++ {
				if all[j].call < all[i].ret {
					overlap = true
				}
			}
		}
		if overlap {
			c.Probe("histories with overlapping operations")
		}
		st := streamCache{}
		if !linearizable(all, st, srcState{seed0, pre}) {
			s := ""
			for _, o := range all {
				s += "\n  " + o.String()
			}
			c.Fail("not-linearizable", "no sequential order of these operations on one generator explains the values returned:%s", s)
		}
		c.Check(true, "", "")
	}
}
