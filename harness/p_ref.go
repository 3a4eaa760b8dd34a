//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"verifsim"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	lm "github.com/pa-m/sklearn/linear_model"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"

	"gonum.org/v1/gonum/mat"
)

// Scenarios judged against small reference models written here, independent of the library.

// ---------------------------------------------------------------- C12

// refPowers lists the exponents of all combinations of 0..degree of f features in graded
// lexicographic order.
func refPowers(f, degree int, inter, bias bool) (out [][]int) {
	start := 1
	if bias {
		start = 0
	}
	var rec func(left, from int, p []int)
	rec = func(left, from int, p []int) {
		if left == 0 {
			out = append(out, append([]int{}, p...))
			return
		}
		for j := from; j < f; j++ {
			p[j]++
			if inter {
				rec(left-1, j+1, p)
			} else {
				rec(left-1, j, p)
			}
			p[j]--
		}
	}
	for k := start; k <= degree; k++ {
		rec(k, 0, make([]int, f))
	}
	return
}

func c12poly(c *C) {
	r := c.R
	nexp := 1 + r.Intn(3)
	type exp struct {
		f, deg      int
		inter, bias bool
		X           *mat.Dense
		pw          [][]int
		out         *mat.Dense
		X2          *mat.Dense
		out2        *mat.Dense
	}
	es := make([]*exp, nexp)
	for i := range es {
		e := &exp{f: 1 + r.Intn(5), deg: 1 + r.Intn(4), inter: r.Bool(), bias: r.Bool()}
		if r.Chance(3) { // shapes away from square
			e.f, e.deg = 1+r.Intn(8), 1+r.Intn(3)
		}
		if r.Chance(6) {
			e.f, e.deg = 1+r.Intn(2), 1+r.Intn(9)
		}
		e.X = normMat(r, 1+r.Intn(6), e.f, 1.5)
		if r.Bool() {
			e.X = strided(e.X)
		}
		e.X2 = normMat(r, 1+r.Intn(3), e.f, 1)
		if r.Chance(3) { // values on which powers are special
			v := []float64{0, 1, -1, 0.5, 2, math.Copysign(0, -1)}
			for _, m := range []*mat.Dense{e.X, e.X2} {
				m.Apply(func(_, _ int, x float64) float64 {
					if r.Bool() {
						return x
					}
					return v[r.Intn(len(v))]
				}, m)
			}
		}
		es[i] = e
		c.Desc("features=%d degree=%d interaction=%v bias=%v", e.f, e.deg, e.inter, e.bias)
	}
	// several expansions may be under way at once, each with its own object
	conc := r.Bool()
	c.Probe(fmt.Sprintf("expansions at once: %v", conc && nexp > 1))
	work := func(e *exp) {
		p := pp.NewPolynomialFeatures(e.deg)
		p.InteractionOnly, p.IncludeBias = e.inter, e.bias
		e.out, _ = p.FitTransform(e.X, nil)
		e.pw = p.Powers
		e.out2, _ = p.Transform(e.X2, nil)
	}
	c.Sim("expand", func() {
		if conc {
			par(len(es), func(i int) { work(es[i]) })
		} else {
			for _, e := range es {
				work(e)
			}
		}
	})
	for _, e := range es {
		want := refPowers(e.f, e.deg, e.inter, e.bias)
		d := fmt.Sprintf("features=%d degree=%d interaction=%v bias=%v", e.f, e.deg, e.inter, e.bias)
		c.Check(reflect.DeepEqual(want, e.pw) || len(want) == 0 && len(e.pw) == 0, "wrong-combinations", "%s: exponents %v, expected %v", d, e.pw, want)
		for _, xo := range [][2]*mat.Dense{{e.X, e.out}, {e.X2, e.out2}} {
			X, out := xo[0], xo[1]
			n, _ := X.Dims()
			rr, cc := dims(out)
			if len(want) == 0 {
				continue
			}
			c.Check(rr == n && cc == len(want), "wrong-shape", "%s: expansion is %dx%d, expected %dx%d", d, rr, cc, n, len(want))
			for i := 0; i < n; i++ {
				for k, p := range want {
					v := 1.0
					for j, pj := range p {
						for t := 0; t < pj; t++ {
							v *= X.At(i, j)
						}
					}
					c.Check(sameF(v, out.At(i, k), 1e-10), "wrong-value", "%s: row %d column %d is %g, expected %g", d, i, k, out.At(i, k), v)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C13

// enetGap is the duality gap of the elastic-net problem
// 1/2 ||Y-XW||^2 + l1 * sum_j ||W_j||_2 + l2/2 ||W||^2 at W.
func enetGap(X, Y, W *mat.Dense, l1, l2 float64, positive bool) (gap, primal float64) {
	n, f := X.Dims()
	_, o := Y.Dims()
	R := make([][]float64, n)
	rn, ry := 0.0, 0.0
	for i := range R {
		R[i] = make([]float64, o)
		for k := 0; k < o; k++ {
			s := Y.At(i, k)
			for j := 0; j < f; j++ {
				s -= X.At(i, j) * W.At(j, k)
			}
			R[i][k] = s
			rn += s * s
			ry += s * Y.At(i, k)
		}
	}
	l21, wn, dual := 0.0, 0.0, 0.0
	for j := 0; j < f; j++ {
		wj, xa, mx := 0.0, 0.0, math.Inf(-1)
		for k := 0; k < o; k++ {
			w := W.At(j, k)
			wj += w * w
			a := -l2 * w
			for i := 0; i < n; i++ {
				a += X.At(i, j) * R[i][k]
			}
			xa += a * a
			mx = math.Max(mx, a)
		}
		wn += wj
		l21 += math.Sqrt(wj)
		if positive {
			if j == 0 || mx > dual {
				dual = mx
			}
		} else {
			dual = math.Max(dual, math.Sqrt(xa))
		}
	}
	cons := 1.0
	if dual > l1 {
		cons = l1 / dual
		gap = 0.5 * (rn + rn*cons*cons)
	} else {
		gap = rn
	}
	gap += l1*l21 - cons*ry + 0.5*l2*(1+cons*cons)*wn
	primal = 0.5*rn + l1*l21 + 0.5*l2*wn
	return
}

// enetPasses is the number of passes a textbook coordinate descent from 0 needs until the gap is below tol*|Y|^2.
func enetPasses(X, Y *mat.Dense, l1, l2, tol float64, positive bool, most int) int {
	n, f := X.Dims()
	_, o := Y.Dims()
	W, R := mat.NewDense(f, o, nil), cp(Y)
	norm := make([]float64, f)
	yy := 0.
	for i := 0; i < n; i++ {
		for j := range norm {
			norm[j] += X.At(i, j) * X.At(i, j)
		}
		for k := 0; k < o; k++ {
			yy += Y.At(i, k) * Y.At(i, k)
		}
	}
	g := make([]float64, o)
	for pass := 1; pass <= most; pass++ {
		wmax, dmax := 0., 0.
		for j := 0; j < f; j++ {
			if norm[j] == 0 {
				continue
			}
			gn := 0.
			for k := range g {
				g[k] = norm[j] * W.At(j, k)
				for i := 0; i < n; i++ {
					g[k] += X.At(i, j) * R.At(i, k)
				}
				gn += g[k] * g[k]
			}
			gn = math.Sqrt(gn)
			s := 0.
			if gn > l1 && !(positive && g[0] < 0) {
				s = (1 - l1/gn) / (norm[j] + l2)
			}
			for k := range g {
				w := s * g[k]
				dw := w - W.At(j, k)
				for i := 0; i < n; i++ {
					R.Set(i, k, R.At(i, k)-dw*X.At(i, j))
				}
				W.Set(j, k, w)
				wmax, dmax = math.Max(wmax, math.Abs(w)), math.Max(dmax, math.Abs(dw))
			}
		}
		if wmax == 0 || dmax < tol*wmax {
			if gap, _ := enetGap(X, Y, W, l1, l2, positive); gap < tol*yy {
				return pass
			}
		}
	}
	return most + 1
}

func c13path(c *C) {
	r := c.R
	n, f, o := 5+r.Intn(15), 1+r.Intn(5), 1
	if r.Chance(3) {
		o = 2 + r.Intn(2)
	}
	d := RegData(r, n, f, o, 3)
	X, Y := d.X, d.Y
	if r.Chance(3) {
		X = strided(X)
	}
	na := 2 + r.Intn(9)
	var al *[]float64
	var given []float64
	if r.Bool() {
		na = 1 + r.Intn(10)
		for i := 0; i < na; i++ {
			given = append(given, math.Pow(10, 1.5-4*r.Float()))
		}
		if r.Chance(3) && na > 1 { // a repeated strength
			given[na-1] = given[0]
		}
		a := append([]float64{}, given...)
		al = &a
	}
	asked := na
	if al != nil && r.Chance(3) { // a count for the grid, which the given strengths replace
		asked = r.Intn(13)
	}
	l1 := r.PickF(0.1, 0.3, 0.5, 0.9, 1)
	pos := o == 1 && r.Bool()
	eps := r.PickF(1e-2, 1e-4, 1e-6)
	lasso := l1 == 1 && r.Bool()
	c.Desc("%dx%d->%d strengths=%d asked=%d given=%v l1=%g positive=%v eps=%g lasso=%v", n, f, o, na, asked, al != nil, l1, pos, eps, lasso)
	var alphas, gaps []float64
	var coefs []*mat.Dense
	var iters []int
	c.Late = func() interface{} { return []interface{}{alphas, gaps, coefs, iters} }
	c.Sim("path", func() {
		if lasso {
			alphas, coefs, gaps, iters = lm.LassoPath(X, Y, eps, asked, al, false, pos)
		} else {
			alphas, coefs, gaps, iters = lm.EnetPath(X, Y, l1, eps, asked, al, false, pos)
		}
	})
	c.Check(len(alphas) == na && len(coefs) == na && len(gaps) == na && len(iters) == na, "wrong-length", "%d strengths asked, %d strengths, %d coefficient matrices, %d gaps, %d iteration counts returned", na, len(alphas), len(coefs), len(gaps), len(iters))
	if given != nil {
		c.Check(reflect.DeepEqual(given, alphas), "strengths-changed", "strengths %v returned for %v", alphas, given)
		c.Check(reflect.DeepEqual(given, *al), "strengths-changed", "the caller's strengths %v became %v", given, *al)
	}
	yy := 0.0
	for i := 0; i < n; i++ {
		for k := 0; k < o; k++ {
			yy += Y.At(i, k) * Y.At(i, k)
		}
	}
	for i := range alphas {
		a := alphas[i]
		c.Check(coefs[i] != nil, "missing-solution", "no coefficients at position %d", i)
		for k := 0; k < i; k++ {
			c.Check(coefs[k] != coefs[i], "shared-solution", "positions %d and %d share one coefficient matrix", k, i)
		}
		rr, cc := coefs[i].Dims()
		c.Check(rr == f && cc == o, "wrong-shape", "coefficients at %d are %dx%d", i, rr, cc)
		gap, primal := enetGap(X, Y, coefs[i], a*l1*float64(n), a*(1-l1)*float64(n), pos)
		scale := math.Max(yy, math.Max(primal, 1))
		c.Check(math.Abs(gap-gaps[i]) <= 1e-9*scale, "gap-of-another-strength", "position %d (strength %g): reported gap %g, gap of its coefficients for this strength %g", i, a, gaps[i], gap)
		if iters[i] <= 1000 { // converged
			c.Check(gap <= eps*yy+1e-9*scale, "not-the-solution", "position %d (strength %g): duality gap %g above the tolerance %g although it stopped after %d iterations", i, a, gap, eps*yy, iters[i])
		} else if enetPasses(X, Y, a*l1*float64(n), a*(1-l1)*float64(n), eps, pos, 100) <= 100 {
			c.Check(gap <= eps*yy+1e-9*scale, "not-the-solution", "position %d (strength %g): duality gap %g above the tolerance %g after %d iterations, coordinate descent gets there in 100", i, a, gap, eps*yy, iters[i])
		} else {
			c.Probe("strength not converged")
		}
		if pos {
			for j := 0; j < f; j++ {
				c.Check(coefs[i].At(j, 0) >= 0, "negative-coefficient", "position %d: coefficient %d is %g", i, j, coefs[i].At(j, 0))
			}
		}
	}
	// the same strengths one at a time
	k := r.Intn(na)
	var W *mat.Dense
	c.Ref("alone", func() {
		m := lm.NewElasticNet()
		m.FitIntercept, m.Normalize, m.L1Ratio, m.Tol, m.Positive, m.Alpha = false, false, l1, eps, pos, alphas[k]
		m.Fit(X, Y)
		W = m.Coef
	})
	diff := DiffDense(W, coefs[k], 1e-9)
	c.Check(diff == "", "differs-from-single-fit", "position %d (strength %g): coefficients differ from a fit for this strength alone: %s", k, alphas[k], diff)
}

// ---------------------------------------------------------------- C14

func colOf(m *mat.Dense, j int) *mat.Dense {
	n, _ := m.Dims()
	o := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		o.Set(i, 0, m.At(i, j))
	}
	return o
}

func field(m interface{}, name string) *mat.Dense {
	v := reflect.ValueOf(m).Elem().FieldByName(name)
	if !v.IsValid() {
		return nil
	}
	d, _ := v.Interface().(*mat.Dense)
	return d
}

func c14columns(c *C) {
	r := c.R
	in := c.inst(func(s *Subject) bool {
		switch s.Name {
		case "LinearRegression", "SGDRegressor", "SVC", "SVR", "KNeighborsRegressor", "KNeighborsClassifier":
			return true
		}
		return false
	})
	tol := math.Max(in.Tol, 1e-8)
	var d *Data
	for k := 0; k < 12; k++ {
		d = in.Data(r)
		if d.O > 1 {
			break
		}
	}
	if d.O < 2 {
		c.Probe("single output drawn")
		return
	}
	nj := c.njobs()
	var m base.Predicter
	var P, P2 *mat.Dense
	c.Sim("all outputs", func() {
		m = in.New(nj).(base.Predicter)
		in.Fit(m, cpData(d))
		n, _ := d.Q.Dims()
		P = mat.NewDense(n, d.O, nil)
		m.Predict(d.mQ(), P)
		P2 = m.Predict(d.mQ(), nil)
	})
	diff := DiffDense(P, P2, 0)
	c.Check(diff == "", "two-predictions", "%s (%s): Predict into a matrix and Predict(nil) differ: %s", in.Name, in.Desc, diff)
	for j := 0; j < d.O; j++ {
		dj := *d
		dj.Y, dj.O = colOf(d.Y, j), 1
		var mj base.Predicter
		var pj *mat.Dense
		c.Ref("one output", func() {
			mj = in.New(1).(base.Predicter)
			in.Fit(mj, cpData(&dj))
			n, _ := d.Q.Dims()
			pj = mat.NewDense(n, 1, nil)
			mj.Predict(d.mQ(), pj)
		})
		diff := DiffDense(pj, colOf(P, j), tol)
		c.Check(diff == "", "column-not-its-own", "%s (%s): predictions for output %d of %d differ from fitting that column alone: %s", in.Name, in.Desc, j, d.O, diff)
		if in.Linear {
			for _, nm := range []string{"Coef", "Intercept"} {
				a, b := field(mj, nm), field(m, nm)
				if a == nil || b == nil || b.IsEmpty() {
					continue
				}
				diff := DiffDense(colOf(a, 0), colOf(b, j), tol)
				c.Check(diff == "", "column-not-its-own", "%s (%s): %s of output %d of %d differs from fitting that column alone: %s", in.Name, in.Desc, nm, j, d.O, diff)
			}
		}
		var sa, sb []int
		var va, vb [][]float64
		switch x := m.(type) {
		case *neighbors.KNeighborsClassifier:
			dc := DiffLeaves(leaves("Classes", mj.(*neighbors.KNeighborsClassifier).Classes[0]), leaves("Classes", x.Classes[j]), 0)
			c.Check(dc == "", "column-not-its-own", "%s (%s): classes of output %d of %d: %s", in.Name, in.Desc, j, d.O, dc)
		case *svm.SVC:
			sa, sb, va, vb = mj.(*svm.SVC).Support[0], x.Support[j], mj.(*svm.SVC).SupportVectors[0], x.SupportVectors[j]
		case *svm.SVR:
			sa, sb, va, vb = mj.(*svm.SVR).Support[0], x.Support[j], mj.(*svm.SVR).SupportVectors[0], x.SupportVectors[j]
		}
		c.Check(len(sa) == len(sb) && (len(sa) == 0 || reflect.DeepEqual(sa, sb)), "column-not-its-own", "%s (%s): support of output %d of %d is %v, fitting that column alone gives %v", in.Name, in.Desc, j, d.O, sb, sa)
		dv := DiffLeaves(leaves("SupportVectors", va), leaves("SupportVectors", vb), 0)
		c.Check(dv == "", "column-not-its-own", "%s (%s): support vectors of output %d: %s", in.Name, in.Desc, j, dv)
	}
}

// ---------------------------------------------------------------- C18

func mink(a, b []float64, p float64) float64 {
	s := 0.0
	for j := range a {
		d := math.Abs(a[j] - b[j])
		if math.IsInf(p, 1) {
			s = math.Max(s, d)
		} else {
			s += math.Pow(d, p)
		}
	}
	if math.IsInf(p, 1) || p == 1 {
		return s
	}
	return math.Pow(s, 1/p)
}

func rowOf(m *mat.Dense, i int) []float64 {
	_, c := m.Dims()
	o := make([]float64, c)
	for j := range o {
		o[j] = m.At(i, j)
	}
	return o
}

type nb1 struct {
	d float64
	i int
}

func brute(X *mat.Dense, q []float64, p float64) []nb1 {
	n, _ := X.Dims()
	out := make([]nb1, n)
	for i := range out {
		out[i] = nb1{mink(q, rowOf(X, i), p), i}
	}
	sort.SliceStable(out, func(a, b int) bool { return out[a].d < out[b].d })
	return out
}

const eqTol = 1e-9

// moved draws a change of unit and of origin that loses no bit: the rows given are put on a grid if the
// origin moves, and the function returned carries a matrix over. Distances are multiplied by s.
func moved(r *Rng, small bool, ms ...*mat.Dense) (s, off float64, f func(*mat.Dense) *mat.Dense) {
	s = 1
	switch r.Intn(10) {
	case 0:
		s = math.Ldexp(1, r.PickI(20, 40))
	case 1:
		s = math.Ldexp(1, r.PickI(20, 40))
		if small {
			s = 1 / s
		}
	case 2:
		off = math.Ldexp(r.PickF(1, -1), r.PickI(10, 20, 28))
	}
	if off != 0 {
		for _, m := range ms {
			m.Apply(func(_, _ int, v float64) float64 { return math.Round(v*4096) / 4096 }, m)
		}
	}
	return s, off, func(m *mat.Dense) *mat.Dense {
		return mapMat(m, func(_, _ int, v float64) float64 { return (v + off) * s })
	}
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= eqTol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// checkK judges one row of a k-nearest-neighbours answer.
func (c *C) checkK(what string, X *mat.Dense, q []float64, p float64, dist, ind []float64) {
	ref := brute(X, q, p)
	n, _ := X.Dims()
	seen := map[int]bool{}
	for k := range dist {
		c.Check(near(dist[k], ref[k].d), "wrong-distance", "%s: neighbour %d of %v at distance %g, exhaustive search gives %g", what, k, q, dist[k], ref[k].d)
		i := int(ind[k])
		c.Check(float64(i) == ind[k] && i >= 0 && i < n, "wrong-index", "%s: neighbour %d has index %g of %d points", what, k, ind[k], n)
		c.Check(!seen[i], "repeated-neighbour", "%s: point %d is twice among the neighbours of %v", what, i, q)
		seen[i] = true
		c.Check(near(mink(q, rowOf(X, i), p), dist[k]), "wrong-index", "%s: neighbour %d is said to be point %d at %g, which is at %g", what, k, i, dist[k], mink(q, rowOf(X, i), p))
		if k > 0 {
			c.Check(dist[k-1] <= dist[k]+1e-12, "not-sorted", "%s: distances %v", what, dist)
		}
	}
}

func drawNN(r *Rng, X *mat.Dense) (m *neighbors.NearestNeighbors, p float64, desc string) {
	m = neighbors.NewNearestNeighbors()
	m.Algorithm = r.PickS("auto", "brute", "kd_tree", "kd_tree", "kd_tree")
	m.LeafSize = r.PickI(0, 1, 2, 3, 7, 30)
	m.Metric = r.PickS("euclidean", "manhattan", "cityblock", "minkowski", "minkowski")
	m.P = r.PickF(1, 2, 3, 1.5, math.Inf(1))
	p = m.P
	switch m.Metric {
	case "euclidean":
		p = 2
	case "manhattan", "cityblock":
		p = 1
	}
	n, f := X.Dims()
	desc = fmt.Sprintf("%dx%d algorithm=%s leaf=%d metric=%s p=%g", n, f, m.Algorithm, m.LeafSize, m.Metric, p)
	return
}

func c18neighbours(c *C) {
	r := c.R
	nmax := 30
	if r.Chance(12) { // enough for the automatic choice of a tree
		nmax = 300
	}
	large := r.Chance(400)
	if large {
		nmax = 1200
	}
	X, Q := cloud(r, r.Size(1, nmax), 1+r.Intn(5), 1+r.Intn(14))
	unit, origin := 1., 0.
	XS, QS := X, Q
	if r.Chance(5) {
		adjacent(r, X)
	} else {
		var mv func(*mat.Dense) *mat.Dense
		unit, origin, mv = moved(r, true, X, Q)
		XS, QS = mv(X), mv(Q)
	}
	n, _ := X.Dims()
	nq, _ := Q.Dims()
	m, p, desc := drawNN(r, X)
	desc += fmt.Sprintf(" unit=%g origin=%g", unit, origin)
	k := 1 + r.Intn(n)
	if k > 12 && (large || r.Bool()) {
		k = 1 + r.Intn(12)
	}
	if r.Chance(3) {
		XS = strided(XS)
	}
	if r.Chance(3) {
		QS = strided(QS)
	}
	var asM mat.Matrix = QS
	if r.Chance(4) { // a matrix without row views
		asM = cp(mat.DenseCopyOf(QS.T())).T()
	}
	rad := r.PickF(0, 0.5, 1, 2, 5)
	if r.Bool() { // exactly the distance of some point
		rad = mink(rowOf(Q, r.Intn(nq)), rowOf(X, r.Intn(n)), p)
	}
	mode := r.PickS("connectivity", "distance")
	self := r.Bool()
	m.NJobs = c.njobs()
	c.Desc("%s k=%d radius=%g queries=%d jobs=%d", desc, k, rad, nq, m.NJobs)
	leaf := r.PickI(1, 2, 5)
	eps := r.PickF(0, 0, 1e-15, 0.5)
	var D, I, G, TD, TI *mat.Dense
	var RD [][]float64
	var RI [][]int
	c.Sim("query", func() {
		m.Fit(XS, nil)
		D, I = m.KNeighbors(asM, k)
		G = m.KNeighborsGraph(QS, k, mode, self)
		RD, RI = m.RadiusNeighbors(QS, rad*unit)
		TD, TI = neighbors.NewKDTree(XS, leaf).Query(asM, k, eps, p, math.Inf(1))
	})
	if unit != 1 {
		back := func(m *mat.Dense) *mat.Dense {
			return mapMat(m, func(_, _ int, v float64) float64 { return v / unit })
		}
		D, TD = back(D), back(TD)
		if mode == "distance" {
			G = back(G)
		}
		for _, d := range RD {
			for t := range d {
				d[t] /= unit
			}
		}
		c.Probe("other unit")
	}
	c.Check(len(RD) == nq && len(RI) == nq, "wrong-shape", "radius search answers %d and %d of %d queries", len(RD), len(RI), nq)
	for i := 0; i < nq; i++ {
		q := rowOf(Q, i)
		c.checkK("KNeighbors "+desc, X, q, p, rowOf(D, i), rowOf(I, i))
		if eps < 0.1 {
			c.checkK(fmt.Sprintf("KDTree %dx leaf=%d p=%g", n, leaf, p), X, q, p, rowOf(TD, i), rowOf(TI, i))
		} else { // approximate: each within (1+eps) of the true one
			ref := brute(X, q, p)
			for kk := 0; kk < k; kk++ {
				c.Check(TD.At(i, kk) <= ref[kk].d*(1+eps)+eqTol && TD.At(i, kk) >= ref[kk].d-eqTol, "wrong-distance", "KDTree leaf=%d p=%g eps=%g: neighbour %d at %g, exhaustive search gives %g", leaf, p, eps, kk, TD.At(i, kk), ref[kk].d)
			}
		}
		ref := brute(X, q, p)
		// graph: an entry for each neighbour strictly inside the k-th distance, none for points strictly outside
		kd := ref[k-1].d
		cnt := 0
		for j := 0; j < n; j++ {
			d := mink(q, rowOf(X, j), p)
			v := G.At(i, j)
			if i == j && !self {
				c.Check(v == 0, "wrong-graph", "graph (%s): entry (%d,%d) is %g without self", mode, i, j, v)
				continue
			}
			if v != 0 {
				cnt++
			}
			want := 1.0
			if mode == "distance" {
				want = d
			}
			switch {
			case near(d, kd):
				c.Check(v == 0 || near(v, want), "wrong-graph", "graph (%s): entry (%d,%d) is %g, expected 0 or %g", mode, i, j, v, want)
			case d < kd:
				c.Check(near(v, want), "wrong-graph", "graph (%s): entry (%d,%d) is %g, expected %g", mode, i, j, v, want)
			default:
				c.Check(v == 0, "wrong-graph", "graph (%s): entry (%d,%d) is %g for a point beyond the %d-th neighbour", mode, i, j, v, k)
			}
		}
		c.Check(cnt <= k, "wrong-graph", "graph (%s): %d neighbours of query %d, at most %d asked", mode, cnt, i, k)
		// radius
		got := map[int]float64{}
		c.Check(len(RD[i]) == len(RI[i]), "wrong-shape", "radius search: %d distances, %d indices", len(RD[i]), len(RI[i]))
		for t, j := range RI[i] {
			_, dup := got[j]
			c.Check(!dup && j >= 0 && j < n, "repeated-neighbour", "radius search %s: indices %v", desc, RI[i])
			got[j] = RD[i][t]
			c.Check(near(RD[i][t], mink(q, rowOf(X, j), p)), "wrong-distance", "radius search %s: point %d at %g said to be at %g", desc, j, mink(q, rowOf(X, j), p), RD[i][t])
			if t > 0 {
				c.Check(RD[i][t-1] <= RD[i][t]+1e-12, "not-sorted", "radius search: distances %v", RD[i])
			}
		}
		for j := 0; j < n; j++ {
			d := mink(q, rowOf(X, j), p)
			_, in := got[j]
			switch {
			case near(d, rad):
			case d < rad:
				c.Check(in, "missing-neighbour", "radius search %s: point %d at %g is missing within %g of query %d", desc, j, d, rad, i)
			default:
				c.Check(!in, "foreign-neighbour", "radius search %s: point %d at %g is listed within %g of query %d", desc, j, d, rad, i)
			}
		}
	}
}

func c18models(c *C) {
	r := c.R
	X, Q := cloud(r, r.Size(2, 30), 1+r.Intn(4), 1+r.Intn(14))
	n, _ := X.Dims()
	nq, _ := Q.Dims()
	nn, p, desc := drawNN(r, X)
	k := 1 + r.Intn(n)
	if r.Bool() {
		k = 1 + r.Intn(minI(n, 5))
	}
	o := 1 + r.Intn(3)
	nj := c.njobs()
	cls := r.Bool()
	Y := mat.NewDense(n, o, nil)
	ls := labelSets[r.Intn(len(labelSets))]
	kc := 1 + r.Intn(len(ls))
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			if cls {
				Y.Set(i, j, ls[r.Intn(kc)])
			} else {
				Y.Set(i, j, r.Norm())
			}
		}
	}
	weights := r.PickS("uniform", "distance")
	var wf interface{} = weights
	if !cls && r.Chance(4) {
		weights = "function"
		wf = func(dst, src []float64) {
			for i, d := range src {
				dst[i] = 1 / (1 + d*d)
			}
		}
	}
	unit, origin, mv := moved(r, weights == "uniform", X, Q)
	if weights == "function" && unit != 1 {
		unit, origin, mv = 1, 0, cp
	}
	XS, QS := mv(X), mv(Q)
	desc += fmt.Sprintf(" unit=%g origin=%g", unit, origin)
	c.Desc("classifier=%v %s k=%d outputs=%d weights=%s jobs=%d", cls, desc, k, o, weights, nj)
	P := mat.NewDense(nq, o, nil)
	var proba *mat.Dense
	var classes [][]float64
	c.Sim("predict", func() {
		if cls {
			m := neighbors.NewKNeighborsClassifier(k, weights)
			m.NearestNeighbors.Algorithm, m.NearestNeighbors.LeafSize, m.NearestNeighbors.Metric, m.NearestNeighbors.P, m.NearestNeighbors.NJobs = nn.Algorithm, nn.LeafSize, nn.Metric, nn.P, nj
			m.Fit(XS, Y)
			m.Predict(QS, P)
			classes = m.Classes
			if o == 1 {
				proba = mat.NewDense(nq, len(m.Classes[0]), nil)
				m.PredictProba(QS, proba)
			}
		} else {
			m := neighbors.NewKNeighborsRegressor(k, wf).(*neighbors.KNeighborsRegressor)
			m.NearestNeighbors.Algorithm, m.NearestNeighbors.LeafSize, m.NearestNeighbors.Metric, m.NearestNeighbors.P, m.NearestNeighbors.NJobs = nn.Algorithm, nn.LeafSize, nn.Metric, nn.P, nj
			m.Fit(XS, Y)
			m.Predict(QS, P)
		}
	})
	if cls {
		for j := 0; j < o; j++ {
			want := map[float64]bool{}
			for i := 0; i < n; i++ {
				want[Y.At(i, j)] = true
			}
			ok := len(classes[j]) == len(want) && sort.Float64sAreSorted(classes[j])
			for _, cl := range classes[j] {
				ok = ok && want[cl]
			}
			c.Check(ok, "wrong-classes", "classes of output %d: %v", j, classes[j])
		}
	}
	for i := 0; i < nq; i++ {
		ref := brute(X, rowOf(Q, i), p)
		// points tied at the boundary may be chosen either way
		lo, hi := k, k
		for lo > 0 && near(ref[lo-1].d, ref[k-1].d) {
			lo--
		}
		for hi < n && near(ref[hi].d, ref[k-1].d) {
			hi++
		}
		w := func(d float64) float64 {
			switch weights {
			case "distance":
				return 1 / (1e-15 + d)
			case "function":
				return 1 / (1 + d*d)
			}
			return 1
		}
		if hi > k {
			c.Probe("tie at the k-th neighbour")
		}
		for j := 0; j < o; j++ {
			if !cls {
				if hi > k && !sameY(Y, ref[lo:hi], j) {
					continue
				}
				s, sw := 0.0, 0.0
				for _, e := range ref[:k] {
					s += w(e.d) * Y.At(e.i, j)
					sw += w(e.d)
				}
				c.Check(sameF(P.At(i, j), s/sw, 1e-7), "wrong-average", "%s k=%d weights=%s: query %d output %d is %g, the weighted average of the neighbours is %g", desc, k, weights, i, j, P.At(i, j), s/sw)
				continue
			}
			// votes: certain part, and what the ties at the boundary can add
			votes, tot := map[float64]float64{}, 0.0
			for _, e := range ref[:lo] {
				votes[Y.At(e.i, j)] += w(e.d)
				tot += w(e.d)
			}
			extra := map[float64]float64{}
			wk := w(ref[k-1].d)
			for _, e := range ref[lo:hi] {
				extra[Y.At(e.i, j)] = math.Min(extra[Y.At(e.i, j)]+wk, float64(k-lo)*wk)
			}
			tot += float64(k-lo) * wk
			if hi == k {
				for cl, v := range extra {
					votes[cl] += v
				}
				extra = map[float64]float64{}
			}
			got := P.At(i, j)
			best := 0.0
			for _, v := range votes {
				best = math.Max(best, v)
			}
			c.Check(votes[got]+extra[got] >= best*(1-1e-7)-1e-12 && votes[got]+extra[got] > 0, "wrong-vote", "%s k=%d weights=%s: query %d output %d is %g with votes %v (+%v)", desc, k, weights, i, j, got, votes, extra)
			if proba != nil {
				sum := 0.0
				for t, cl := range classes[0] {
					pr := proba.At(i, t)
					sum += pr
					c.Check(pr >= votes[cl]/tot-1e-7 && pr <= (votes[cl]+extra[cl])/tot+1e-7, "wrong-probability", "%s k=%d weights=%s: probability of %g for query %d is %g, votes %v of %g (+%v)", desc, k, weights, cl, i, pr, votes, tot, extra)
				}
				c.Check(near(sum, 1), "wrong-probability", "probabilities of query %d add up to %g", i, sum)
			}
		}
	}
}

func sameY(Y *mat.Dense, e []nb1, j int) bool {
	for _, x := range e {
		if Y.At(x.i, j) != Y.At(e[0].i, j) {
			return false
		}
	}
	return true
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c18dbscan(c *C) {
	r := c.R
	X, _ := cloud(r, r.Size(1, 40), 1+r.Intn(3), 1)
	n, _ := X.Dims()
	nn, p, desc := drawNN(r, X)
	eps := r.PickF(0.3, 0.5, 1, 1.5, 3)
	mins := float64(1 + r.Intn(6))
	var sw []float64
	if r.Chance(3) {
		for i := 0; i < n; i++ {
			sw = append(sw, r.PickF(0.5, 1, 2, 3, -1))
		}
	}
	unit, origin, mv := moved(r, true, X)
	XS := mv(X)
	desc += fmt.Sprintf(" unit=%g origin=%g", unit, origin)
	if r.Chance(3) {
		XS = strided(XS)
	}
	nj := c.njobs()
	c.Desc("DBSCAN %s eps=%g min=%g weighted=%v jobs=%d", desc, eps, mins, sw != nil, nj)
	var labels, core []int
	var P *mat.Dense
	c.Sim("cluster", func() {
		m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps * unit, MinSamples: mins, Metric: nn.Metric, Algorithm: nn.Algorithm, LeafSize: nn.LeafSize, P: nn.P, NJobs: nj})
		m.SampleWeight = sw
		m.Fit(XS, nil)
		labels, core = m.Labels, m.CoreSampleIndices
		P = m.Predict(XS, nil)
	})
	adj := make([][]bool, n)
	amb := false // a pair exactly at eps
	for i := range adj {
		adj[i] = make([]bool, n)
		for j := range adj[i] {
			d := mink(rowOf(X, i), rowOf(X, j), p)
			adj[i][j] = d <= eps
			amb = amb || near(d, eps)
		}
	}
	if amb {
		c.Probe("pair exactly at eps")
		return
	}
	c.Check(len(labels) == n, "wrong-shape", "%d labels for %d rows", len(labels), n)
	for i := range labels {
		c.Check(P.At(i, 0) == float64(labels[i]), "wrong-label", "Predict gives %g for row %d labelled %d", P.At(i, 0), i, labels[i])
	}
	isCore := make([]bool, n)
	for t, i := range core {
		c.Check(i >= 0 && i < n && !isCore[i] && (t == 0 || core[t-1] < i), "wrong-core", "core samples %v", core)
		isCore[i] = true
	}
	for i := 0; i < n; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			if adj[i][j] {
				if sw != nil {
					s += sw[j]
				} else {
					s++
				}
			}
		}
		if s != mins { // whether reaching MinSamples exactly suffices is left open
			c.Check(isCore[i] == (s > mins), "wrong-core", "%s eps=%g min=%g: row %d has neighbourhood weight %g, core: %v", desc, eps, mins, i, s, isCore[i])
		}
	}
	// clusters are the connected components of the core rows
	comp := make([]int, n)
	for i := range comp {
		comp[i] = -1
	}
	nc := 0
	for i := 0; i < n; i++ {
		if !isCore[i] || comp[i] >= 0 {
			continue
		}
		st := []int{i}
		comp[i] = nc
		for len(st) > 0 {
			a := st[len(st)-1]
			st = st[:len(st)-1]
			for b := 0; b < n; b++ {
				if isCore[b] && adj[a][b] && comp[b] < 0 {
					comp[b] = nc
					st = append(st, b)
				}
			}
		}
		nc++
	}
	c.Probe(fmt.Sprintf("clusters: %d", minI(nc, 4)))
	for i := 0; i < n; i++ {
		if isCore[i] {
			c.Check(labels[i] == comp[i], "wrong-label", "%s eps=%g min=%g: core row %d is labelled %d, its component is number %d", desc, eps, mins, i, labels[i], comp[i])
			continue
		}
		ok, any := false, false
		for j := 0; j < n; j++ {
			if isCore[j] && adj[i][j] {
				any = true
				ok = ok || labels[i] == comp[j]
			}
		}
		if any {
			c.Check(ok, "wrong-label", "%s eps=%g min=%g: border row %d is labelled %d, the label of no neighbouring cluster", desc, eps, mins, i, labels[i])
		} else {
			c.Check(labels[i] == -1, "wrong-label", "%s eps=%g min=%g: row %d near no core row is labelled %d", desc, eps, mins, i, labels[i])
		}
	}
}

// ---------------------------------------------------------------- C19

func c19kmeans(c *C) {
	r := c.R
	X, Q := cloud(r, r.Big(1, 40), 1+r.Intn(4), r.Size(1, 10))
	n, f := X.Dims()
	k := 1 + r.Intn(minI(n, 6))
	unit, origin, mv := moved(r, true, X, Q)
	XS, QS := mv(X), mv(Q)
	tol := eqTol + 1e-14*math.Abs(origin)*float64(n) // of distances between rows and centroids
	if r.Chance(3) {
		XS = strided(XS)
	}
	var XM, QM mat.Matrix = XS, QS
	views := true
	if r.Chance(3) { // a matrix without row views
		XM, QM = cp(mat.DenseCopyOf(XS.T())).T(), cp(mat.DenseCopyOf(QS.T())).T()
		views = false
	}
	nj := c.njobs()
	p := 2.
	if r.Chance(4) {
		p = r.PickF(1, 1.5, 3, math.Inf(1))
	}
	c.Desc("KMeans %dx%d clusters=%d jobs=%d row views=%v p=%g unit=%g origin=%g", n, f, k, nj, views, p, unit, origin)
	c.Desc("rows %v", X.RawMatrix().Data)
	var C, L, LQ *mat.Dense
	if p != 2 {
		c.MaxSt = 3000000
	}
	res := c.Run("fit", c.SimCfg(), func() {
		m := &cluster.KMeans{NClusters: k, NJobs: nj}
		if p != 2 {
			m.Distance = cluster.MinkowskiDistance(p)
		}
		m.Fit(XM, nil)
		C = m.Centroids
		L = m.Predict(XM, nil)
		LQ = mat.NewDense(QMrows(QM), 1, nil)
		m.Predict(QM, LQ)
	})
	if p != 2 && res.StepLimit { // with another distance, means need not settle
		c.Probe("unsettled")
		return
	}
	c.judge("fit", res)
	cr, cc := dims(C)
	C = mapMat(C, func(_, _ int, v float64) float64 { return v/unit - origin })
	c.Check(cr == k && cc == f, "wrong-shape", "centroids are %dx%d", cr, cc)
	d2 := func(a, b []float64) float64 {
		s := 0.0
		if math.IsInf(p, 1) {
			for j := range a {
				s = math.Max(s, math.Abs(a[j]-b[j]))
			}
			return s
		}
		if p != 2 {
			for j := range a {
				s += math.Pow(math.Abs(a[j]-b[j]), p)
			}
			return math.Pow(s, 1/p)
		}
		for j := range a {
			s += (a[j] - b[j]) * (a[j] - b[j])
		}
		return math.Sqrt(s)
	}
	touchy := make([]bool, k) // clusters with a row equidistant from two centroids
	judge := func(M, L *mat.Dense, what string) (wcss float64) {
		rows, _ := M.Dims()
		lr, lc := dims(L)
		c.Check(lr == rows && lc == 1, "wrong-shape", "labels of %s are %dx%d", what, lr, lc)
		for i := 0; i < rows; i++ {
			x := rowOf(M, i)
			l := int(L.At(i, 0))
			c.Check(float64(l) == L.At(i, 0) && l >= 0 && l < k, "wrong-label", "label %g of %s row %d", L.At(i, 0), what, i)
			dl := d2(x, rowOf(C, l))
			wcss += dl * dl
			for t := 0; t < k; t++ {
				dt := d2(x, rowOf(C, t))
				c.Check(dl <= dt+tol*(1+dt), "not-the-nearest", "%dx%d clusters=%d: %s row %d has label %d at distance %g, centroid %d is at %g", n, f, k, what, i, l, dl, t, dt)
				if t != l && math.Abs(dl-dt) <= 100*tol*(1+dt) {
					touchy[t], touchy[l] = true, true
				}
			}
		}
		return
	}
	wcss := judge(X, L, "training")
	judgeT := append([]bool{}, touchy...)
	judge(Q, LQ, "query")
	empty := 0
	for t := 0; t < k; t++ {
		s, cnt := make([]float64, f), 0
		for i := 0; i < n; i++ {
			if int(L.At(i, 0)) == t {
				cnt++
				for j := range s {
					s[j] += X.At(i, j)
				}
			}
		}
		if cnt == 0 {
			empty++
			continue
		}
		if judgeT[t] {
			c.Probe("equidistant row")
			continue
		}
		for j := range s {
			c.Check(math.Abs(s[j]/float64(cnt)-C.At(t, j)) <= tol*(1+math.Abs(C.At(t, j))), "not-the-mean", "%dx%d clusters=%d jobs=%d: centroid %d has coordinate %d = %.12g, the mean of its %d rows is %.12g", n, f, k, nj, t, j, C.At(t, j), cnt, s[j]/float64(cnt))
		}
	}
	if empty > 0 {
		c.Probe("empty cluster")
	}
	if p != 2 {
		c.Probe("other distances")
		return
	}
	// not worse than the start (the first k rows)
	w0 := 0.0
	for i := 0; i < n; i++ {
		b := math.Inf(1)
		for t := 0; t < k; t++ {
			b = math.Min(b, d2(rowOf(X, i), rowOf(X, t)))
		}
		w0 += b * b
	}
	c.Check(wcss <= w0*(1+10*tol)+100*tol, "worse-than-start", "%dx%d clusters=%d: sum of squares %g after the fit, %g at the start", n, f, k, wcss, w0)
}

// QMrows counts rows.
func QMrows(m mat.Matrix) int { n, _ := m.Dims(); return n }

// ---------------------------------------------------------------- C21

func c21bayes(c *C) {
	r := c.R
	f := 1 + r.Intn(6)
	kc := 2 + r.Intn(3)
	ls := append([]float64{}, labelSets[r.Intn(len(labelSets))][:kc]...)
	if r.Bool() {
		sort.Float64s(ls)
	}
	C := normMat(r, kc, f, 3)
	nbat := 1
	partial := r.Bool()
	if partial {
		nbat = 1 + r.Intn(4)
	}
	weighted := r.Chance(3)
	vs := r.PickF(1e-9, 1e-9, 1e-3)
	type batch struct {
		X, Y *mat.Dense
		w    []float64
	}
	var bs []batch
	for b := 0; b < nbat; b++ {
		n := r.Big(1, 25)
		if b == 0 {
			n += 2 * kc
		}
		bt := batch{X: mat.NewDense(n, f, nil), Y: mat.NewDense(n, 1, nil)}
		for i := 0; i < n; i++ {
			l := r.Intn(kc)
			if b == 0 && i < 2*kc && !partial {
				l = i % kc
			}
			for j := 0; j < f; j++ {
				bt.X.Set(i, j, C.At(l, j)+r.Norm())
			}
			bt.Y.Set(i, 0, ls[l])
			if weighted {
				bt.w = append(bt.w, r.PickF(0.5, 1, 2, 3.5))
			}
		}
		if weighted && r.Bool() { // rows that do not count, but for the last of each class
			counts := map[float64]bool{}
			for i := n - 1; i >= 0; i-- {
				if l := bt.Y.At(i, 0); !counts[l] {
					counts[l] = true
				} else if r.Chance(3) {
					bt.w[i] = 0
				}
			}
		}
		bs = append(bs, bt)
	}
	var priors []float64
	if r.Chance(4) {
		priors = make([]float64, kc)
		for i := range priors {
			priors[i] = 1 / float64(kc)
		}
	}
	classes := append([]float64{}, ls...)
	if !partial {
		sort.Float64s(classes)
	}
	Q := normMat(r, 1+r.Intn(6), f, 4)
	unit := 1. // of all features
	if r.Chance(6) {
		unit = math.Ldexp(1, r.PickI(-40, -20, 20, 40))
	}
	in := func(m *mat.Dense) *mat.Dense {
		return mapMat(m, func(_, _ int, v float64) float64 { return v * unit })
	}
	refit := r.Chance(3) // the object was fitted on something else before
	c.Desc("GaussianNB batches=%d partial=%v weighted=%v priors=%v features=%d classes=%v refit=%v unit=%g", nbat, partial, weighted, priors != nil, f, classes, refit, unit)
	var m *nb.GaussianNB
	var P, PP *mat.Dense
	c.Sim("fit", func() {
		m = nb.NewGaussianNB(priors, vs)
		if refit {
			d := ClsData(NewRng(5), 20, f+1, kc, 1, 1, []float64{0, 1, 2, 3, 4})
			m.Fit(d.X, d.Y)
		}
		for i, b := range bs {
			if partial {
				m.PartialFit(in(b.X), b.Y, append([]float64{}, classes...), refit && i == 0, b.w)
			} else {
				m.SampleWeight = b.w
				m.Fit(in(b.X), b.Y)
			}
		}
		P = m.Predict(in(Q), nil)
		PP = m.PredictProbas(in(Q), nil)
	})
	// all rows at once
	var xs [][]float64
	var ys, ws []float64
	for _, b := range bs {
		n, _ := b.X.Dims()
		for i := 0; i < n; i++ {
			xs = append(xs, rowOf(b.X, i))
			ys = append(ys, b.Y.At(i, 0))
			w := 1.0
			if b.w != nil {
				w = b.w[i]
			}
			ws = append(ws, w)
		}
	}
	// smoothing uses the variance of the last batch
	last := bs[len(bs)-1]
	eps := 0.0
	for j := 0; j < f; j++ {
		_, v, _ := wstat(last.X, last.w, j, func(int) bool { return true })
		eps = math.Max(eps, v*vs)
	}
	c.Check(reflect.DeepEqual(classes, m.Classes), "wrong-classes", "classes %v, expected %v", m.Classes, classes)
	tr, tc := dims(m.Theta)
	c.Check(len(m.ClassCount) == kc && len(m.ClassPrior) == kc && tr == kc && tc == f, "wrong-shape", "counts %v, priors %v, means %dx%d", m.ClassCount, m.ClassPrior, tr, tc)
	tot := 0.0
	for _, w := range ws {
		tot += w
	}
	Theta := mapMat(m.Theta, func(_, _ int, v float64) float64 { return v / unit })
	Sigma := mapMat(m.Sigma, func(_, _ int, v float64) float64 { return v / unit / unit })
	th, sg, pr := mat.NewDense(kc, f, nil), mat.NewDense(kc, f, nil), make([]float64, kc)
	for k, cl := range classes {
		n := 0.0
		for i := range ys {
			if ys[i] == cl {
				n += ws[i]
			}
		}
		c.Check(near(n, m.ClassCount[k]), "wrong-count", "class %g: counted %g, the rows add up to %g", cl, m.ClassCount[k], n)
		pr[k] = n / tot
		if priors != nil {
			pr[k] = priors[k]
		}
		c.Check(near(pr[k], m.ClassPrior[k]), "wrong-prior", "class %g: prior %g, expected %g", cl, m.ClassPrior[k], pr[k])
		for j := 0; j < f; j++ {
			mu, v := 0.0, 0.0
			if n > 0 {
				for i := range ys {
					if ys[i] == cl {
						mu += ws[i] * xs[i][j] / n
					}
				}
				for i := range ys {
					if ys[i] == cl {
						v += ws[i] * (xs[i][j] - mu) * (xs[i][j] - mu) / n
					}
				}
			} else {
				c.Probe("class without rows")
			}
			th.Set(k, j, mu)
			sg.Set(k, j, v+eps)
			c.Check(sameF(mu, Theta.At(k, j), 1e-8), "wrong-mean", "class %g feature %d: mean %.12g, the rows have %.12g", cl, j, Theta.At(k, j), mu)
			c.Check(math.Abs(v+eps-Sigma.At(k, j)) <= 1e-8*(1+v), "wrong-variance", "class %g feature %d: variance %.12g, the rows have %.12g", cl, j, Sigma.At(k, j), v+eps)
		}
	}
	// predictions follow from the statistics the model shows
	qn, _ := Q.Dims()
	for i := 0; i < qn; i++ {
		jll := make([]float64, kc)
		best := math.Inf(-1)
		for k := range jll {
			s := math.Log(m.ClassPrior[k])
			for j := 0; j < f; j++ {
				sig := Sigma.At(k, j)
				d := Q.At(i, j) - Theta.At(k, j)
				s += -0.5*math.Log(2*math.Pi*sig) - 0.5*d*d/sig
			}
			jll[k] = s
			best = math.Max(best, s)
		}
		if math.IsNaN(best) || math.IsInf(best, 0) {
			c.Probe("degenerate variance")
			continue
		}
		z := 0.0
		for _, s := range jll {
			z += math.Exp(s - best)
		}
		got := -1
		for k, cl := range classes {
			if cl == P.At(i, 0) {
				got = k
			}
			pe := math.Exp(jll[k]-best) / z
			c.Check(math.Abs(pe-PP.At(i, k)) <= 1e-7, "wrong-probability", "probability of class %g for query %d is %g, expected %g", cl, i, PP.At(i, k), pe)
		}
		c.Check(got >= 0 && jll[got] >= best-1e-7*(1+math.Abs(best)), "wrong-prediction", "query %d is given class %g with likelihoods %v", i, P.At(i, 0), jll)
	}
}

func wstat(X *mat.Dense, w []float64, j int, keep func(int) bool) (mu, v, n float64) {
	rows, _ := X.Dims()
	wt := func(i int) float64 {
		if w == nil {
			return 1
		}
		return w[i]
	}
	for i := 0; i < rows; i++ {
		if keep(i) {
			n += wt(i)
			mu += wt(i) * X.At(i, j)
		}
	}
	mu /= n
	for i := 0; i < rows; i++ {
		if keep(i) {
			v += wt(i) * (X.At(i, j) - mu) * (X.At(i, j) - mu)
		}
	}
	return mu, v / n, n
}

func c21centroid(c *C) {
	r := c.R
	f, kc := 1+r.Intn(6), 1+r.Intn(4)
	n := r.Big(2*kc, 30)
	ls := labelSets[r.Intn(len(labelSets))]
	d := ClsData(r, n, f, kc, 1, 1+r.Intn(10), ls)
	metric := r.PickS("euclidean", "manhattan")
	X := d.X
	if r.Chance(3) {
		X = strided(X)
	}
	c.Desc("NearestCentroid %dx%d classes=%d metric=%s", n, f, kc, metric)
	var m *neighbors.NearestCentroid
	qn, _ := d.Q.Dims()
	P := mat.NewDense(qn, 1, nil)
	c.Sim("fit", func() {
		m = neighbors.NewNearestCentroid(metric, 0)
		m.Fit(X, d.Y)
		m.Predict(d.mQ(), P)
	})
	cl := append([]float64{}, ls[:kc]...)
	sort.Float64s(cl)
	c.Check(len(m.Classes) == 1 && reflect.DeepEqual(m.Classes[0], cl), "wrong-classes", "classes %v, expected %v", m.Classes, cl)
	cr, cc := dims(m.Centroids)
	c.Check(cr == kc && cc == f, "wrong-shape", "centroids are %dx%d", cr, cc)
	for k, v := range cl {
		cnt := 0
		for i := 0; i < n; i++ {
			if d.Y.At(i, 0) == v {
				cnt++
			}
		}
		c.Check(m.ClassCount[0][k] == cnt, "wrong-count", "class %g: counted %d, there are %d rows", v, m.ClassCount[0][k], cnt)
		for j := 0; j < f; j++ {
			var col []float64
			s := 0.0
			for i := 0; i < n; i++ {
				if d.Y.At(i, 0) == v {
					col = append(col, X.At(i, j))
					s += X.At(i, j)
				}
			}
			sort.Float64s(col)
			g := m.Centroids.At(k, j)
			if metric == "manhattan" { // a median: any value between the two middle ones
				lo, hi := col[(len(col)-1)/2], col[len(col)/2]
				c.Check(g >= lo-eqTol && g <= hi+eqTol, "wrong-centroid", "class %g feature %d: centroid %g is not between the middle values %g and %g", v, j, g, lo, hi)
			} else {
				c.Check(sameF(g, s/float64(len(col)), 1e-9), "wrong-centroid", "class %g feature %d: centroid %g, mean of its rows %g", v, j, g, s/float64(len(col)))
			}
		}
	}
	p := 2.0
	if metric == "manhattan" {
		p = 1
	}
	for i := 0; i < qn; i++ {
		ref := brute(m.Centroids, rowOf(d.Q, i), p)
		ok := false
		for _, e := range ref {
			if near(e.d, ref[0].d) && cl[e.i] == P.At(i, 0) {
				ok = true
			}
		}
		c.Check(ok, "wrong-prediction", "query %d is given class %g, the nearest centroid is of class %g", i, P.At(i, 0), cl[ref[0].i])
	}
}

// ---------------------------------------------------------------- C23

// history is a sequence of partial fits on a family of copies of one object.
func c23incremental(c *C) {
	r := c.R
	kind := r.PickS("MinMaxScaler", "StandardScaler", "MaxAbsScaler", "LabelEncoder", "IncrementalMeanAndVar")
	if onlySubject != "" {
		kind = onlySubject
	}
	f := 1 + r.Intn(5)
	o := 1 + r.Intn(3)
	type obj struct {
		m    interface{}
		rows [][]float64 // what it has seen
		ys   [][]float64
	}
	nobj := 1 + r.Intn(3)
	scale, shift := 1+4*r.Float(), 5*r.Norm()
	ls := labelSets[r.Intn(len(labelSets))]
	// features may be measured in units so large or small that only relative comparisons make sense
	units := make([]float64, f)
	for j := range units {
		units[j] = 1
		if r.Chance(6) {
			units[j] = math.Ldexp(1, r.PickI(-60, -40, -25, 25, 40))
		}
	}
	in := func(m *mat.Dense) *mat.Dense {
		return mapMat(m, func(_, j int, v float64) float64 { return v * units[j] })
	}
	draw := func() (*mat.Dense, *mat.Dense) {
		n := r.Big(1, 9)
		X, Y := normMat(r, n, f, scale), mat.NewDense(n, o, nil)
		X.Apply(func(i, j int, v float64) float64 { return v + shift*float64(j) }, X)
		for i := 0; i < n; i++ {
			for j := 0; j < o; j++ {
				Y.Set(i, j, ls[r.Intn(len(ls))])
			}
		}
		if r.Chance(5) {
			X.Apply(func(i, j int, v float64) float64 { return 2.5 }, X)
		}
		if r.Chance(3) {
			X = strided(X)
			Y = strided(Y)
		}
		return X, Y
	}
	// per object: a first step, then more; copies are made from an object at a drawn moment
	type step struct {
		X, Y  *mat.Dense
		reset bool
		XS    *mat.Dense // X in the units of the features
	}
	mkStep := func(X, Y *mat.Dense, reset bool) step {
		s := step{X, Y, reset, in(X)}
		if X.RawMatrix().Stride != f {
			s.XS = strided(s.XS)
		}
		return s
	}
	pre := r.Intn(3)
	var preS []step
	for i := 0; i < pre; i++ {
		X, Y := draw()
		preS = append(preS, mkStep(X, Y, r.Chance(5)))
	}
	steps := make([][]step, nobj)
	for i := range steps {
		for k := 1 + r.Intn(3); k > 0; k-- {
			X, Y := draw()
			steps[i] = append(steps[i], mkStep(X, Y, r.Chance(6)))
		}
	}
	var fr []float64
	if kind == "MinMaxScaler" {
		fr = []float64{r.PickF(0, -1, 2), r.PickF(3, 5)}
	}
	conc := r.Bool()
	c.Desc("%s features=%d: %d batches, then %d copies with %v more batches, concurrent: %v", kind, f, pre, nobj, func() (l []int) {
		for _, s := range steps {
			l = append(l, len(s))
		}
		return
	}(), conc)
	c.Probe("incremental " + kind)
	type imv struct {
		mean, va *mat.Dense
		n        int
	}
	mk := func() interface{} {
		switch kind {
		case "MinMaxScaler":
			return pp.NewMinMaxScaler(fr)
		case "StandardScaler":
			return pp.NewStandardScaler()
		case "MaxAbsScaler":
			return pp.NewMaxAbsScaler()
		case "LabelEncoder":
			return pp.NewLabelEncoder()
		}
		return &imv{mat.NewDense(1, f, nil), mat.NewDense(1, f, nil), 0}
	}
	clone := func(m interface{}) interface{} {
		if t, ok := m.(base.Transformer); ok {
			return t.TransformerClone()
		}
		z := *m.(*imv)
		return &z
	}
	apply := func(m interface{}, s step) {
		if s.reset { // a full fit forgets everything before it
			switch x := m.(type) {
			case *imv:
				x.mean, x.va, x.n = pp.IncrementalMeanAndVar(s.XS, mat.NewDense(1, f, nil), mat.NewDense(1, f, nil), 0)
			default:
				m.(base.Fiter).Fit(s.XS, s.Y)
			}
			return
		}
		switch x := m.(type) {
		case *imv:
			x.mean, x.va, x.n = pp.IncrementalMeanAndVar(s.XS, x.mean, x.va, x.n)
		case *pp.MinMaxScaler:
			x.PartialFit(s.XS, s.Y)
		case *pp.StandardScaler:
			x.PartialFit(s.XS, s.Y)
		case *pp.MaxAbsScaler:
			x.PartialFit(s.XS, s.Y)
		case *pp.LabelEncoder:
			x.PartialFit(s.XS, s.Y)
		}
	}
	objs := make([]*obj, nobj)
	c.Sim("history", func() {
		m := mk()
		for _, s := range preS {
			apply(m, s)
		}
		for i := range objs {
			objs[i] = &obj{m: m}
			if i > 0 {
				objs[i].m = clone(m)
			}
		}
		work := func(i int) {
			for _, s := range steps[i] {
				apply(objs[i].m, s)
			}
		}
		if conc {
			par(nobj, work)
		} else {
			for k := nobj - 1; k >= 0; k-- {
				work(k)
			}
		}
	})
	for i, ob := range objs {
		for _, s := range append(append([]step{}, preS...), steps[i]...) {
			if s.reset {
				ob.rows, ob.ys = nil, nil
			}
			n, _ := s.X.Dims()
			for t := 0; t < n; t++ {
				ob.rows = append(ob.rows, rowOf(s.X, t))
				ob.ys = append(ob.ys, rowOf(s.Y, t))
			}
		}
		n := float64(len(ob.rows))
		what := fmt.Sprintf("%s, copy %d of %d after %d rows", kind, i, nobj, len(ob.rows))
		for j := 0; j < f; j++ {
			lo, hi, ma, mu, va := math.Inf(1), math.Inf(-1), 0.0, 0.0, 0.0
			for _, x := range ob.rows {
				lo, hi, ma = math.Min(lo, x[j]), math.Max(hi, x[j]), math.Max(ma, math.Abs(x[j]))
				mu += x[j] / n
			}
			for _, x := range ob.rows {
				va += (x[j] - mu) * (x[j] - mu) / n
			}
			vt := 1e-9 * (1 + va + mu*mu)
			u := units[j]
			switch m := ob.m.(type) {
			case *imv:
				c.Check(m.n == len(ob.rows) && near(m.mean.At(0, j)/u, mu) && math.Abs(m.va.At(0, j)/u/u-va) <= vt, "batches-differ-from-whole", "%s: feature %d has count %d mean %.12g variance %.12g, all rows together give %d, %.12g, %.12g", what, j, m.n, m.mean.At(0, j)/u, m.va.At(0, j)/u/u, len(ob.rows), mu, va)
			case *pp.StandardScaler:
				c.Check(m.NSamplesSeen == len(ob.rows) && near(m.Mean.At(0, j)/u, mu) && math.Abs(m.Var.At(0, j)/u/u-va) <= vt, "batches-differ-from-whole", "%s: feature %d has count %d mean %.12g variance %.12g, all rows together give %d, %.12g, %.12g", what, j, m.NSamplesSeen, m.Mean.At(0, j)/u, m.Var.At(0, j)/u/u, len(ob.rows), mu, va)
				if va > 1e-6*(1+mu*mu) {
					c.Check(sameF(m.Scale.At(0, j)/u, math.Sqrt(va), 1e-6), "batches-differ-from-whole", "%s: feature %d has scale %.12g, all rows together give %.12g", what, j, m.Scale.At(0, j), math.Sqrt(va))
				}
			case *pp.MinMaxScaler:
				c.Check(m.NSamplesSeen == len(ob.rows) && m.DataMin.At(0, j)/u == lo && m.DataMax.At(0, j)/u == hi, "batches-differ-from-whole", "%s: feature %d has count %d and range [%g,%g], all rows together give %d and [%g,%g]", what, j, m.NSamplesSeen, m.DataMin.At(0, j)/u, m.DataMax.At(0, j)/u, len(ob.rows), lo, hi)
				if hi > lo {
					c.Check(near(m.Scale.At(0, j)*u, (fr[1]-fr[0])/(hi-lo)), "batches-differ-from-whole", "%s: feature %d has scale %g, expected %g", what, j, m.Scale.At(0, j), (fr[1]-fr[0])/(hi-lo))
					c.Check(sameF(m.Min.At(0, j), fr[0]-lo*(fr[1]-fr[0])/(hi-lo), 1e-9), "batches-differ-from-whole", "%s: feature %d has offset %g", what, j, m.Min.At(0, j))
				}
			case *pp.MaxAbsScaler:
				c.Check(m.NSamplesSeen == len(ob.rows) && m.MaxAbs[j]/u == ma, "batches-differ-from-whole", "%s: feature %d has count %d and maximum %g, all rows together give %d and %g", what, j, m.NSamplesSeen, m.MaxAbs[j]/u, len(ob.rows), ma)
				if ma > 0 {
					c.Check(m.Scale[j]/u == ma, "batches-differ-from-whole", "%s: feature %d has scale %g, expected %g", what, j, m.Scale[j], ma)
				}
			}
		}
		if m, ok := ob.m.(*pp.LabelEncoder); ok {
			c.Check(len(m.Classes) == o && len(m.Support) == o, "batches-differ-from-whole", "%s: classes %v support %v", what, m.Classes, m.Support)
			for j := 0; j < o; j++ {
				cnt := map[float64]float64{}
				for _, y := range ob.ys {
					cnt[y[j]]++
				}
				var cl, su []float64
				for v := range cnt {
					cl = append(cl, v)
				}
				sort.Float64s(cl)
				for _, v := range cl {
					su = append(su, cnt[v])
				}
				c.Check(reflect.DeepEqual(cl, m.Classes[j]) && reflect.DeepEqual(su, m.Support[j]), "batches-differ-from-whole", "%s: output %d has classes %v with counts %v, all rows together give %v, %v", what, j, m.Classes[j], m.Support[j], cl, su)
			}
		}
	}
}

func init() {
	register("C12", &Scenario{Name: "polynomial", Race: true, Leak: true, F: c12poly})
	register("C13", &Scenario{Name: "path", Race: true, F: c13path})
	register("C14", &Scenario{Name: "columns", F: c14columns})
	register("C18", &Scenario{Name: "neighbours", Weight: 3, Race: true, F: c18neighbours})
	register("C18", &Scenario{Name: "models", Weight: 3, Race: true, F: c18models})
	register("C18", &Scenario{Name: "dbscan", Weight: 2, Race: true, F: c18dbscan})
	register("C19", &Scenario{Name: "kmeans", Race: true, F: c19kmeans})
	register("C21", &Scenario{Name: "bayes", Weight: 3, Race: true, F: c21bayes})
	register("C21", &Scenario{Name: "centroid", Weight: 2, Race: true, F: c21centroid})
	register("C23", &Scenario{Name: "incremental", Race: true, F: c23incremental})
}

// par runs n callers at once inside the simulation and waits for them.
func par(n int, f func(i int)) {
	var wg verifsim.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		verifsim.Go(func() {
			f(i)
			wg.Done()
		})
	}
	wg.Wait()
}
