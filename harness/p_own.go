//go:build go1.21

package main

import (
	"fmt"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C39", &Scenario{Name: "reused-matrices", Weight: 1, Race: true, F: c39reuse})
}

// ---------------------------------------------------------------- C39

// scribble overwrites a matrix in place, as a caller does who uses it for something else.
func scribble(m *mat.Dense) {
	if m == nil || m.IsEmpty() {
		return
	}
	r, c := m.Dims()
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.Set(i, j, -7e5+float64(i*13+j))
		}
	}
}

// shares tells whether two matrices have storage in common.
func shares(a, b *mat.Dense) bool {
	if a == nil || b == nil || a.IsEmpty() || b.IsEmpty() {
		return false
	}
	x, y := a.RawMatrix().Data, b.RawMatrix().Data
	for i := range x {
		if &x[i] == &y[0] {
			return true
		}
	}
	for i := range y {
		if &y[i] == &x[0] {
			return true
		}
	}
	return false
}

// c39reuse: after a fit the caller uses the training matrices for something else, while others query the
// model; and uses the matrices it got as answers, as well.
func c39reuse(c *C) {
	in := c.inst(nil)
	d := in.unusual(c.R)
	nj := c.njobs()
	cloned := in.Clone != nil && c.R.Bool()
	partial := in.Partial != nil && c.R.Bool()
	c.Desc("data %s jobs %d cloned %v incremental %v", d, nj, cloned, partial)
	dk := cpData(d)
	qa, qb := cpData(d), cpData(d)
	if !qb.Q.IsEmpty() && qb.QY != nil && !qb.QY.IsEmpty() {
		// another question of the same size
		n, _ := qb.Q.Dims()
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		if m, _ := qb.QY.Dims(); m == n {
			e := *d
			e.X, e.Y, e.Q, e.QY = cp(d.X), cp(d.Y), takeRows(d.Q, rev), takeRows(d.QY, rev)
			qb = e.as(d.Form)
		}
	}
	var before, during, after []Leaf
	var kept, answer []*mat.Dense
	var what []string
	bad := ""
	c.Sim("fit, reuse, query", func() {
		m := in.New(nj)
		in.Fit(m, dk)
		if partial {
			in.Partial(m, dk)
		}
		before = append(dumpOf(in, m), allQueries(in, m, qa)...)
		if cloned {
			m = in.Clone(m)
		}
		together(2, func(k int) {
			if k == 0 {
				for _, x := range []*mat.Dense{dk.X, dk.Y, dk.tr[dk.X], dk.tr[dk.Y]} {
					scribble(x)
				}
				return
			}
			during = allQueries(in, m, qa)
		})
		// answers stay as they are while the model goes on answering, and belong to the caller
		ask := func(e *Data) (out []*mat.Dense, names []string) {
			if p, ok := m.(base.Predicter); ok && in.Name != "DBSCAN" && in.Name != "GaussianProcess" {
				n, _ := dims(e.Q)
				y := mat.NewDense(n, p.GetNOutputs(), nil)
				out, names = append(out, y, p.Predict(e.mQ(), y)), append(names, "Predict's destination", "Predict's result")
			}
			if t, ok := m.(base.Transformer); ok && in.Name != "Pipeline" {
				x, y := t.Transform(e.mQ(), e.mQY())
				for k, o := range []*mat.Dense{x, y} {
					alias := false
					for _, a := range e.all() {
						alias = alias || shares(a, o)
					}
					if !alias && o != nil && !o.IsEmpty() {
						out, names = append(out, o), append(names, fmt.Sprintf("Transform's result %d", k))
					}
				}
			}
			if q, ok := m.(interface {
				KNeighbors(X mat.Matrix, NNeighbors int) (distances, indices *mat.Dense)
			}); ok && in.Name != "NearestCentroid" {
				n, _ := d.X.Dims()
				a, b := q.KNeighbors(e.mQ(), min(n, 3))
				out, names = append(out, a, b), append(names, "KNeighbors' distances", "KNeighbors' indices")
			}
			if q, ok := m.(interface {
				PredictProbas(X mat.Matrix, Y mat.Mutable) *mat.Dense
			}); ok {
				out, names = append(out, q.PredictProbas(e.mQ(), nil)), append(names, "PredictProbas")
			}
			return
		}
		if in.Name != "KernelCenterer" && in.Name != "Shuffler" && in.Name != "MultiLabelBinarizer" && d.Q != nil && !d.Q.IsEmpty() {
			answer, what = ask(qa)
			for _, a := range answer {
				kept = append(kept, cp(a))
			}
			ask(qb)
			allQueries(in, m, qb)
			for k := range answer {
				if bad == "" {
					if diff := DiffDense(kept[k], answer[k], 0); diff != "" {
						bad = what[k] + ": " + diff
					}
				}
			}
			for _, a := range answer {
				scribble(a)
			}
		}
		after = append(dumpOf(in, m), allQueries(in, m, cpData(d))...)
	})
	tol := in.Tol
	nd := len(before) - len(during)
	diff := DiffLeaves(before[nd:], during, tol)
	c.Check(diff == "", "training-data-kept", "%s (%s), %s: the caller overwrites the training matrices after the fit and the model's answers change: %s", in.Name, in.Desc, d, diff)
	c.Check(bad == "", "answer-changed", "%s (%s), %s: an answer changed when the model was asked again: %s", in.Name, in.Desc, d, bad)
	if !cloned {
		diff = DiffLeaves(before, after, tol)
	} else {
		diff = DiffLeaves(before[nd:], after[len(after)-len(during):], tol)
	}
	c.Check(diff == "", "model-changed", "%s (%s), %s: after the caller overwrote the training matrices and the answers it got, the model is not what it was: %s", in.Name, in.Desc, d, diff)
}
