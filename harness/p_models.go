//go:build go1.21

package main

import (
	"fmt"
	"reflect"
	"strings"
	"verifsim"

	"github.com/pa-m/sklearn/base"
	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C02", &Scenario{Name: "subjects", Weight: 6, Race: true, F: c02subjects})
	register("C03", &Scenario{Name: "subjects", Weight: 6, F: c03subjects})
	register("C08", &Scenario{Name: "concurrent-queries", Weight: 1, Race: true, F: c08queries})
	register("C09", &Scenario{Name: "clone-histories", Weight: 1, Race: true, F: c09clones})
	register("C10", &Scenario{Name: "subjects", Weight: 4, F: c10subjects})
	register("C11", &Scenario{Name: "subjects", Weight: 4, F: c11subjects})
	register("C17", &Scenario{Name: "subjects", Weight: 4, Leak: true, F: c17subjects})
	register("C20", &Scenario{Name: "refits", Weight: 1, F: c20refits})
}

var onlySubject string // set by -subject for development

func (c *C) inst(keep func(*Subject) bool) *Inst {
	in := drawSubject(c.R, func(s *Subject) bool {
		return (onlySubject == "" || s.Name == onlySubject) && (keep == nil || keep(s))
	})
	c.Desc("%s %s", in.Name, in.Desc)
	c.Probe("subject " + in.Name)
	if in.Spins {
		c.Spins, c.MaxSt = true, 15e6
	}
	return in
}

func (c *C) njobs() int { return c.S.PickI(-1, -1, 0, 1, 2, 3, 4, 8) }

func cpData(d *Data) *Data {
	e := *d
	e.X, e.Y, e.Q, e.QY = cp(d.X), cp(d.Y), cp(d.Q), cp(d.QY)
	return e.as(d.Form)
}

// variant is data of the same shape and labels with other values in another row order.
func variant(r *Rng, d *Data) *Data {
	e := *d
	p := r.Perm(d.N)
	e.X, e.Y = takeRows(d.X, p), takeRows(d.Y, p)
	e.X.Apply(func(i, j int, v float64) float64 { return v * (1 + 0.3*r.Float()) }, e.X)
	return e.as(d.Form)
}

func formName(f string) string {
	if f != "" {
		f = " (" + f + ")"
	}
	return f
}

func (d *Data) String() string {
	return fmt.Sprintf("%d x %d -> %d%s", d.N, d.F, d.O, formName(d.Form))
}

// allQueries runs every query in turn.
func allQueries(in *Inst, m interface{}, d *Data) (out []Leaf) {
	for _, q := range in.Queries {
		out = append(out, q.F(m, d)...)
	}
	return
}

func dumpOf(in *Inst, m interface{}) []Leaf { return Dump(m, in.Skip...) }

// ---------------------------------------------------------------- C02

func c02subjects(c *C) {
	in := c.inst(nil)
	d := in.unusual(c.R)
	nj := c.njobs()
	c.Desc("data %s jobs %d", d, nj)
	c.Sim("fit and query", func() {
		m := in.New(nj)
		in.Fit(m, d)
		allQueries(in, m, d)
	})
}

// ---------------------------------------------------------------- C03

func c03subjects(c *C) {
	in := c.inst(nil)
	if in.NonDet {
		return
	}
	d := in.unusual(c.R)
	c.Desc("data %s", d)
	var ref, refq []Leaf
	d0 := cpData(d)
	c.Ref("one CPU, one job", func() {
		m := in.New(1)
		in.Fit(m, d0)
		refq = allQueries(in, m, d0)
		ref = dumpOf(in, m)
	})
	for k := 0; k < 3; k++ {
		nj := c.njobs()
		var got, gotq []Leaf
		dk := cpData(d)
		res := c.Sim("any schedule", func() {
			m := in.New(nj)
			in.Fit(m, dk)
			gotq = allQueries(in, m, dk)
			got = dumpOf(in, m)
		})
		_ = res
		if diff := DiffLeaves(ref, got, in.Tol); diff != "" {
			c.Fail("fit-depends-on-schedule", "%s (%s), %s: fitted with NJobs=%d on %d CPUs differs from one job on one CPU: %s", in.Name, in.Desc, d, nj, c.rec[len(c.rec)-1].Cfg.NumCPU, diff)
		}
		if diff := DiffLeaves(refq, gotq, in.Tol); diff != "" {
			c.Fail("query-depends-on-schedule", "%s (%s), %s: queried with NJobs=%d on %d CPUs differs from one job on one CPU: %s", in.Name, in.Desc, d, nj, c.rec[len(c.rec)-1].Cfg.NumCPU, diff)
		}
		c.st.Checks++
	}
}

// ---------------------------------------------------------------- C08

func c08queries(c *C) {
	in := c.inst(nil)
	if len(in.Queries) == 0 {
		return
	}
	d := in.unusual(c.R)
	nj := c.njobs()
	workers := 2 + c.R.Intn(3)
	// every worker has its own query rows (and sometimes shares them)
	type job struct {
		q Query
		d *Data
	}
	jobs := make([][]job, workers)
	got := make([][][]Leaf, workers)
	for w := range jobs {
		dw := d
		if c.R.Bool() {
			dw = cpData(d)
			n, _ := dw.Q.Dims()
			p := c.R.Perm(n)
			if in.Name != "KernelCenterer" {
				p = p[:3+c.R.Intn(n-2)] // scores need targets that vary
			}
			dw.Q, dw.QY = takeRows(d.Q, p), takeRows(d.QY, p)
			dw.as(d.Form)
		}
		k := 1 + c.R.Intn(3)
		for i := 0; i < k; i++ {
			jobs[w] = append(jobs[w], job{in.Queries[c.R.Intn(len(in.Queries))], dw})
		}
		got[w] = make([][]Leaf, k)
	}
	c.Desc("data %s, %d callers", d, workers)
	var before, after []Leaf
	want := make([][][]Leaf, workers)
	c.Sim("concurrent queries", func() {
		m := in.New(nj)
		in.Fit(m, d)
		before = dumpOf(in, m)
		var wg verifsim.WaitGroup
		for w := range jobs {
			w := w
			wg.Add(1)
			verifsim.Go(func() {
				for i, j := range jobs[w] {
					got[w][i] = j.q.F(m, j.d)
				}
				wg.Done()
			})
		}
		wg.Wait()
		after = dumpOf(in, m)
		for w := range jobs {
			for _, j := range jobs[w] {
				want[w] = append(want[w], j.q.F(m, j.d))
			}
		}
	})
	for w := range jobs {
		for i, j := range jobs[w] {
			diff := DiffLeaves(want[w][i], got[w][i], 0)
			c.Check(diff == "", "query-depends-on-others", "%s (%s): %s called by %d goroutines at once differs from the same call made alone: %s", in.Name, in.Desc, j.q.Name, workers, diff)
		}
	}
	diff := DiffLeaves(before, after, 0)
	c.Check(diff == "", "query-changes-model", "%s (%s): queries changed the fitted model: %s", in.Name, in.Desc, diff)
}

// ---------------------------------------------------------------- C09

// c09clones plays a history: a prefix (maybe a fit), a set of clones (maybe clones of clones), then
// fits of some of the objects on their own data, one after another or at once. Each object must end
// up as in the run in which it is the only one fitted after the prefix.
func c09clones(c *C) {
	in := c.inst(func(s *Subject) bool { return s.Kind != "neighbors" })
	if in.NonDet || in.Clone == nil {
		return
	}
	nobj := 2 + c.R.Intn(2)
	prefit := c.R.Bool()
	d0 := in.unusual(c.R)
	parent := make([]int, nobj)
	fit := make([]bool, nobj)
	data := make([]*Data, nobj)
	for i := range data {
		if i > 0 {
			parent[i] = c.R.Intn(i)
		}
		fit[i] = !prefit || c.R.Intn(3) > 0
		data[i] = d0
		if c.R.Bool() {
			data[i] = in.unusual(c.R)
			if in.SameF && data[i].F != d0.F {
				data[i] = d0
			}
		}
	}
	mode := "fit"
	if prefit && (in.Partial != nil || in.Warm != nil) && c.R.Bool() {
		mode = "warm"
		if in.Partial != nil {
			mode = "partial"
		}
		for i := range data {
			data[i] = variant(c.R, d0)
		}
	}
	c.Probe("history of " + mode + "s")
	conc := c.R.Bool()
	c.Desc("%d objects, fitted before cloning: %v, then %s, concurrent: %v", nobj, prefit, mode, conc)
	nj := c.njobs()
	setup := func() []interface{} {
		ms := make([]interface{}, nobj)
		ms[0] = in.New(nj)
		if prefit {
			in.Fit(ms[0], cpData(d0))
		}
		if mode == "warm" {
			in.Warm(ms[0])
		}
		for i := 1; i < nobj; i++ {
			ms[i] = in.Clone(ms[parent[i]])
		}
		return ms
	}
	// an object that is not fitted again must answer as it did before
	run := func(i int, m interface{}) []Leaf {
		d := d0
		if fit[i] {
			d = data[i]
			if mode == "partial" {
				in.Partial(m, cpData(d))
			} else {
				in.Fit(m, cpData(d))
			}
		}
		return nil
	}
	look := func(i int, m interface{}) []Leaf {
		d := d0
		if fit[i] {
			d = data[i]
		}
		return append(allQueries(in, m, cpData(d)), dumpOf(in, m)...)
	}
	alone := make([][]Leaf, nobj)
	for i := 0; i < nobj; i++ {
		i := i
		c.Ref(fmt.Sprintf("object %d alone", i), func() {
			ms := setup()
			xrand.Seed(c.G)
			run(i, ms[i])
			alone[i] = look(i, ms[i])
		})
	}
	order := c.R.Perm(nobj)
	got := make([][]Leaf, nobj)
	if in.Random && !in.Seeded {
		conc = false // concurrent fits drawing from the process-wide generator are not comparable
	}
	c.Sim("together", func() {
		ms := setup()
		if conc {
			var wg verifsim.WaitGroup
			for _, i := range order {
				i := i
				wg.Add(1)
				verifsim.Go(func() {
					run(i, ms[i])
					wg.Done()
				})
			}
			wg.Wait()
		} else {
			for _, i := range order {
				xrand.Seed(c.G)
				run(i, ms[i])
			}
		}
		for i := range ms {
			got[i] = look(i, ms[i])
		}
	})
	for i := range got {
		diff := DiffLeaves(alone[i], got[i], in.Tol)
		what := "a copy"
		if i == 0 {
			what = "the original"
		}
		c.Check(diff == "", "copies-not-isolated", "%s (%s): %s (refitted: %v) ends up differently when other copies are fitted too (fitted before cloning: %v, at once: %v): %s", in.Name, in.Desc, what, fit[i], prefit, conc, diff)
	}
}

// ---------------------------------------------------------------- C10

func c10subjects(c *C) {
	in := c.inst(nil)
	if in.NonDet || in.Random && !in.Seeded {
		return
	}
	d := in.unusual(c.R)
	c.Desc("data %s", d)
	c.Clock = true
	var first []Leaf
	g := c.G
	for k := 0; k < 3; k++ {
		c.G = mix64(g + uint64(k)*977) // the state of the process-wide generator differs from run to run
		nj := c.njobs()
		dk := cpData(d)
		var got []Leaf
		body := func() {
			m := in.New(nj)
			in.Fit(m, dk)
			got = append(allQueries(in, m, dk), dumpOf(in, m)...)
		}
		if k == 0 {
			c.Ref("first", body)
			first = got
			continue
		}
		c.Sim("again", body)
		diff := DiffLeaves(first, got, in.Tol)
		c.Check(diff == "", "not-reproducible", "%s (%s), %s: the same seeded fit and queries gave different results: %s", in.Name, in.Desc, d, diff)
	}
	c.G = g
}

// ---------------------------------------------------------------- C11

// flagT is a flag whose accesses order nothing as far as the race detector is concerned.
type flagT struct{ v bool }

//go:norace
func (f *flagT) get() bool { return f.v }

//go:norace
func (f *flagT) set() { f.v = true }

// c11watch reads the matrices over and over and notes any change; its reads also make any write by
// the library a data race.
func c11watch(watched, copies []*mat.Dense, stop *flagT, passes int, bad *string) {
	for p := 0; p < passes && !stop.get(); p++ {
		for k, m := range watched {
			r, cc := m.Dims()
			raw := m.RawMatrix()
			for i := 0; i < r; i++ {
				for j := 0; j < cc; j++ {
					v := raw.Data[i*raw.Stride+j]
					if *bad == "" && !sameF(v, copies[k].At(i, j), 0) {
						*bad = fmt.Sprintf("matrix %d element (%d,%d) was %g, is %g", k, i, j, copies[k].At(i, j), v)
					}
				}
				verifsim.Y()
			}
		}
	}
}

func c11subjects(c *C) {
	in := c.inst(nil)
	d := in.unusual(c.R)
	nj := c.njobs()
	c.Desc("data %s", d)
	ft := c.R.Bool()
	c11run(c, in.Name+" ("+in.Desc+")", d.all(), func() {
		m := in.New(nj)
		in.Fit(m, d)
		allQueries(in, m, d)
		if t, ok := m.(base.Transformer); ok && ft {
			t.FitTransform(d.mX(), d.mY())
		}
	})
}

// c11run makes the calls while a second goroutine keeps reading the matrices.
func c11run(c *C, what string, watched []*mat.Dense, call func()) {
	copies := make([]*mat.Dense, len(watched))
	for i := range watched {
		copies[i] = cp(watched[i])
	}
	bad := ""
	watch := c.R.Intn(4) > 0
	passes := c.R.PickI(1, 3, 10, 60)
	res := c.Sim("call with an onlooker", func() {
		var stop flagT
		var wg verifsim.WaitGroup
		if watch {
			wg.Add(1)
			verifsim.Go(func() {
				c11watch(watched, copies, &stop, passes, &bad)
				wg.Done()
			})
		}
		call()
		stop.set()
		wg.Wait()
	})
	c.Check(bad == "", "input-changed-during-call", "%s: an onlooker saw the caller's data changed during the call: %s", what, bad)
	for k := range watched {
		diff := DiffDense(copies[k], watched[k], 0)
		c.Check(diff == "", "input-changed", "%s: the caller's matrix %d (X, Y, query X, query Y) was modified: %s", what, k, diff)
	}
	if res.Races > 0 {
		if log := c.raceLog(); strings.Contains(log, "c11watch") {
			c.Fail("input-written", "%s: a write to the caller's data races with a reader of it\n%s", what, log)
		}
	}
}

// ---------------------------------------------------------------- C17

func c17subjects(c *C) {
	in := c.inst(nil)
	d := in.unusual(c.R)
	nj := c.njobs()
	c.Desc("data %s jobs %d", d, nj)
	c.Sim("fit and query", func() {
		m := in.New(nj)
		in.Fit(m, d)
		allQueries(in, m, d)
	})
	c.st.Checks++
}

// ---------------------------------------------------------------- C20

// resetSource gives m the random state of a fresh instance.
func resetSource(in *Inst, m interface{}, nj int) {
	f := in.New(nj)
	mv, fv := reflect.ValueOf(m), reflect.ValueOf(f)
	if mv.Kind() != reflect.Ptr {
		return
	}
	mv, fv = mv.Elem(), fv.Elem()
	for _, name := range []string{"RandomState", "CV"} {
		a, b := mv.FieldByName(name), fv.FieldByName(name)
		if a.IsValid() && a.CanSet() {
			a.Set(b)
		}
	}
}

func c20refits(c *C) {
	in := c.inst(nil)
	if in.NonDet {
		return
	}
	nfits := 2 + c.R.Intn(2)
	data := []*Data{in.unusual(c.R)}
	for len(data) < nfits {
		d := in.unusual(c.R)
		if in.SameF && d.F != data[0].F {
			d = data[c.R.Intn(len(data))]
		}
		data = append(data, d)
	}
	query := c.R.Bool()
	reuse := c.R.Chance(3)
	if reuse && c.R.Bool() { // more often with one shape
		for i, d := range data[1:] {
			e := data[0]
			if sameDims(d.X, e.X) && sameDims(d.Y, e.Y) {
				continue
			}
			e = cpData(e)
			n, _ := e.X.Dims()
			p := c.R.Perm(n)
			e.X, e.Y = takeRows(e.X, p), takeRows(e.Y, p)
			if c.R.Bool() {
				e.X.Scale(1.5, e.X)
			}
			data[i+1] = e
		}
	}
	if reuse {
		for _, d := range data {
			d.as("")
		}
	}
	var s string
	for _, d := range data {
		s += " " + d.String()
	}
	c.Desc("fits on%s, matrices used again: %v", s, reuse)
	last := data[nfits-1]
	var fresh, again []Leaf
	nj := c.njobs()
	d1 := cpData(last)
	c.Ref("fresh", func() {
		m := in.New(nj)
		in.Fit(m, d1)
		fresh = append(allQueries(in, m, d1), dumpOf(in, m)...)
	})
	body := func() {
		m := in.New(nj)
		var dd *Data
		for i, d := range data {
			if nd := cpData(d); reuse && dd != nil && dd.over(nd) {
				// the same matrices with new contents
			} else {
				dd = nd
			}
			resetSource(in, m, nj)
			xrand.Seed(c.G)
			in.Fit(m, dd)
			if query && i < nfits-1 {
				allQueries(in, m, dd)
			}
		}
		if !reuse {
			dd = cpData(last)
		}
		again = append(allQueries(in, m, dd), dumpOf(in, m)...)
	}
	tol := 0.0
	if c.R.Bool() {
		c.Ref("refitted", body)
	} else {
		c.Sim("refitted", body)
		tol = in.Tol
	}
	diff := DiffLeaves(fresh, again, tol)
	c.Check(diff == "", "refit-differs", "%s (%s): after fits on%s the object differs from a fresh one fitted on the last data only: %s", in.Name, in.Desc, s, diff)
}
