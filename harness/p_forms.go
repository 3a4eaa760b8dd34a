//go:build go1.21

package main

import (
	"fmt"
	"verifsim"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C24", &Scenario{Name: "arguments", Weight: 3, F: c24arguments})
	register("C24", &Scenario{Name: "destinations", Weight: 2, F: c24destinations})
}

// ---------------------------------------------------------------- C24

// formTol allows for sums taken in another order: a matrix product with a transposed or an opaque
// matrix does not follow the same loops as one with a dense matrix.
func formTol(in *Inst) float64 {
	if in.Tol > 1e-9 {
		return in.Tol
	}
	return 1e-9
}

func c24arguments(c *C) {
	in := c.inst(nil)
	if in.NonDet {
		return
	}
	d := in.Data(c.R)
	if n, _ := dims(d.Q); n > 1 && d.Kind != "regression" && c.R.Chance(4) { // the R2 score needs several rows
		// a single query
		d.Q = cp(takeRows(d.Q, []int{0}))
		if qn, _ := dims(d.QY); qn == n {
			d.QY = cp(takeRows(d.QY, []int{0}))
		}
	}
	d.as(c.R.PickS(formNames...))
	c.Desc("data %s", d)
	run := func(dk *Data, nj int, out *[]Leaf) func() {
		return func() {
			m := in.New(nj)
			in.Fit(m, dk)
			*out = allQueries(in, m, dk)
		}
	}
	var want []Leaf
	c.Ref("dense", run(cpData(d).as(""), 1, &want))
	var got []Leaf
	c.Sim(d.Form, run(cpData(d), c.njobs(), &got))
	diff := DiffLeaves(want, got, formTol(in))
	c.Check(diff == "", "depends-on-storage", "%s (%s): fitted and queried with %s matrices of the same values, it differs from plain dense ones: %s", in.Name, in.Desc, d, diff)
}

// opaqueDst is a destination with nothing but the methods every mutable matrix has.
type opaqueDst struct{ opaque }

func (o opaqueDst) Set(i, j int, v float64) { o.m.Set(i, j, v) }

const filler = -12345.5

func filled(r, c int) *mat.Dense {
	m := mat.NewDense(r, c, nil)
	m.Apply(func(i, j int, _ float64) float64 { return filler }, m)
	return m
}

// c24destinations: one or several callers predict at the same time, each into its own place; the
// places may be windows of one matrix, next to each other.
func c24destinations(c *C) {
	in := c.inst(func(s *Subject) bool {
		return s.Kind == "predicter" && s.Name != "DBSCAN" && s.Name != "GaussianProcess"
	})
	if in.NonDet {
		return
	}
	d := in.Data(c.R)
	c.Desc("data %s", d)
	var want *mat.Dense
	c.Ref("dense", func() {
		m := in.New(1)
		dk := cpData(d)
		in.Fit(m, dk)
		p, ok := m.(base.Predicter)
		if !ok {
			return
		}
		n, _ := dk.Q.Dims()
		want = mat.NewDense(n, p.GetNOutputs(), nil)
		p.Predict(dk.mQ(), want)
	})
	if want == nil {
		return
	}
	n, o := want.Dims()
	callers := 1 + c.R.Intn(3)
	wide := filled(n+2, callers*(o+1)+1)
	kinds := make([]string, callers)
	dst := make([]mat.Mutable, callers)
	got := make([]*mat.Dense, callers)
	back := make([]*mat.Dense, callers)
	turned := make([]*mat.Dense, callers)
	var tall *mat.Dense
	win := make([]bool, len(wide.RawMatrix().Data))
	for k := range kinds {
		kinds[k] = c.R.PickS("window", "window", "dirty", "opaque", "nil", "rows", "view")
		switch kinds[k] {
		case "window":
			back[k] = wide.Slice(1, n+1, 1+k*(o+1), 1+k*(o+1)+o).(*mat.Dense)
			dst[k] = wide.Slice(1, n+1, 1+k*(o+1), 1+k*(o+1)+o).(*mat.Dense)
			for i := 0; i < n; i++ {
				for j := 0; j < o; j++ {
					win[(1+i)*wide.RawMatrix().Stride+1+k*(o+1)+j] = true
				}
			}
		case "dirty":
			f := filled(n, o)
			own := *f // the memory must be written, not only the header replaced
			back[k], dst[k] = &own, f
		case "opaque":
			back[k] = filled(n, o)
			dst[k] = opaqueDst{opaque{back[k]}}
		case "rows":
			// the callers' rows lie one below the other in one tall matrix
			if tall == nil {
				tall = filled(callers*(n+1)+1, o)
			}
			start := 1 + k*(n+1)
			dst[k] = base.MatRowSlice{Matrix: tall, Start: start, End: start + n}
			back[k] = tall.Slice(start, start+n, 0, o).(*mat.Dense)
		case "view":
			t := filled(o, n)
			dst[k] = base.MatTranspose{Matrix: t}
			turned[k] = t
		}
	}
	c.Desc("%d callers predicting into %v", callers, kinds)
	nj := c.njobs()
	dk := cpData(d)
	c.Sim("predict", func() {
		m := in.New(nj)
		in.Fit(m, dk)
		p := m.(base.Predicter)
		together(callers, func(k int) { got[k] = p.Predict(dk.mQ(), dst[k]) })
	})
	where := fmt.Sprintf("%s (%s), %s, callers predicting into %v", in.Name, in.Desc, d, kinds)
	tol := formTol(in)
	for k := range kinds {
		if diff := diffMat(want, got[k], tol); diff != "" {
			c.Fail("destination", "%s: the matrix returned to caller %d differs from a prediction into a new dense matrix: %s", where, k, diff)
		}
		if turned[k] != nil {
			back[k] = mat.DenseCopyOf(turned[k].T())
		}
		if back[k] != nil {
			if diff := diffMat(want, back[k], tol); diff != "" {
				c.Fail("destination", "%s: the destination of caller %d differs from a prediction into a new dense matrix: %s", where, k, diff)
			}
		}
	}
	for p, v := range wide.RawMatrix().Data {
		if !win[p] && v != filler {
			c.Fail("outside", "%s: element (%d,%d) of the matrix the windows belong to, outside of them, became %g", where, p/wide.RawMatrix().Stride, p%wide.RawMatrix().Stride, v)
		}
	}
	if tall != nil {
		for i := 0; i < callers*(n+1)+1; i++ {
			k := (i - 1) / (n + 1)
			if i > 0 && (i-1)%(n+1) < n && k < callers && kinds[k] == "rows" {
				continue
			}
			for j := 0; j < o; j++ {
				if v := tall.At(i, j); v != filler {
					c.Fail("outside", "%s: element (%d,%d) of the tall matrix, outside of the callers' rows, became %g", where, i, j, v)
				}
			}
		}
	}
	c.st.Checks++
}

// together runs f(0..n-1) in tasks of their own and waits for them.
func together(n int, f func(k int)) {
	var wg verifsim.WaitGroup
	for k := 0; k < n; k++ {
		k := k
		wg.Add(1)
		verifsim.Go(func() {
			f(k)
			wg.Done()
		})
	}
	wg.Wait()
}

func diffMat(want, got *mat.Dense, tol float64) string {
	r, cc := dims(want)
	if gr, gc := dims(got); gr != r || gc != cc {
		return fmt.Sprintf("%d x %d instead of %d x %d", gr, gc, r, cc)
	}
	for i := 0; i < r; i++ {
		for j := 0; j < cc; j++ {
			if !sameF(got.At(i, j), want.At(i, j), tol) {
				return fmt.Sprintf("(%d,%d): %g instead of %g", i, j, got.At(i, j), want.At(i, j))
			}
		}
	}
	return ""
}
