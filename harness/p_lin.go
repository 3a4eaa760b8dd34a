//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

func init() {
	register("C37", &Scenario{Name: "least-squares", Weight: 2, F: c37ols})
	register("C37", &Scenario{Name: "elastic-net", Weight: 4, F: c37enet})
	register("C37", &Scenario{Name: "bayesian-ridge", Weight: 2, F: c37bayes})
	register("C37", &Scenario{Name: "sgd", Weight: 2, F: c37sgd})
	register("C37", &Scenario{Name: "logistic", Weight: 2, F: c37logistic})
	register("C37", &Scenario{Name: "perceptron", Weight: 2, F: c37perceptron})
}

// ---------------------------------------------------------------- C37

// linData draws a regression problem for the linear models, sometimes with a constant feature.
func linData(c *C, maxn, maxf, maxo int) (d *Data, form string, constant int) {
	f := 1 + c.R.Intn(maxf)
	d = RegData(c.R, f+3+c.R.Intn(maxn), f, 1+c.R.Intn(maxo), 1+c.R.Intn(6))
	constant = -1
	if c.R.Chance(3) {
		form = c.R.PickS(formNames...)
	}
	return
}

// centred is the problem the model states it solves: features and targets centred if an intercept is
// asked for, features divided by their norm if that is asked for too.
func centred(d *Data, intercept, normalize bool) (X, Y *mat.Dense, scale []float64) {
	X, Y = cp(d.X), cp(d.Y)
	scale = make([]float64, d.F)
	for j := range scale {
		scale[j] = 1
	}
	if !intercept {
		return
	}
	centre := func(M *mat.Dense, j int) {
		n, _ := M.Dims()
		s := 0.
		for i := 0; i < n; i++ {
			s += M.At(i, j)
		}
		s /= float64(n)
		for i := 0; i < n; i++ {
			M.Set(i, j, M.At(i, j)-s)
		}
	}
	for k := 0; k < d.O; k++ {
		centre(Y, k)
	}
	for j := 0; j < d.F; j++ {
		centre(X, j)
		if normalize {
			s := 0.
			for i := 0; i < d.N; i++ {
				s += X.At(i, j) * X.At(i, j)
			}
			s = math.Sqrt(s)
			if s < 1e-12 {
				s = 1
			}
			scale[j] = s
			for i := 0; i < d.N; i++ {
				X.Set(i, j, X.At(i, j)/s)
			}
		}
	}
	return
}

// c37model judges what any fitted linear model must satisfy: predictions are X*Coef+Intercept, and the
// intercept makes the training residuals sum to zero (or is zero if none was asked for).
func c37model(c *C, d *Data, m *lm.LinearModel, intercept bool, pred, dec *mat.Dense) {
	r, o := m.Coef.Dims()
	c.Check(r == d.F && o == d.O, "shape", "coefficients are %dx%d for %d features and %d outputs", r, o, d.F, d.O)
	r, o = m.Intercept.Dims()
	c.Check(r == 1 && o == d.O, "shape", "intercept is %dx%d for %d outputs", r, o, d.O)
	for k := 0; k < d.O; k++ {
		for i := 0; i < len(d.Q.RawMatrix().Data)/d.F; i++ {
			y := m.Intercept.At(0, k)
			mag := math.Abs(y)
			for j := 0; j < d.F; j++ {
				p := d.Q.At(i, j) * m.Coef.At(j, k)
				y += p
				mag += math.Abs(p)
			}
			c.Check(sameF(pred.At(i, k), y, 1e-9*(1+mag)) && sameF(dec.At(i, k), y, 1e-9*(1+mag)), "predict", "row %d output %d: X*Coef+Intercept is %v, Predict gives %v and DecisionFunction %v", i, k, y, pred.At(i, k), dec.At(i, k))
		}
		if !intercept {
			c.Check(m.Intercept.At(0, k) == 0, "intercept", "output %d: no intercept was asked for, it is %v", k, m.Intercept.At(0, k))
			continue
		}
		s, mag := 0., 0.
		for i := 0; i < d.N; i++ {
			e := d.Y.At(i, k) - m.Intercept.At(0, k)
			mag += math.Abs(d.Y.At(i, k)) + math.Abs(m.Intercept.At(0, k))
			for j := 0; j < d.F; j++ {
				e -= d.X.At(i, j) * m.Coef.At(j, k)
				mag += math.Abs(d.X.At(i, j) * m.Coef.At(j, k))
			}
			s += e
		}
		c.Check(math.Abs(s) <= 1e-9*(1+mag), "intercept", "output %d: with intercept %v the training residuals sum to %v", k, m.Intercept.At(0, k), s)
	}
}

type linFitter interface {
	base.Predicter
	DecisionFunction(X mat.Matrix, Ymutable mat.Mutable)
}

// c37run fits m and asks for predictions in one simulated run.
func c37run(c *C, d *Data, form string, m linFitter) (pred, dec *mat.Dense) {
	dl := cpData(d).as(form)
	c.Sim("fit and predict", func() {
		m.Fit(dl.mX(), dl.mY())
		pred = cp(m.Predict(dl.mQ(), nil))
		dec = &mat.Dense{}
		m.DecisionFunction(dl.mQ(), dec)
	})
	return
}

// grad returns X'(XW-Y), with W in the units of X.
func lsGrad(X, Y, W *mat.Dense) *mat.Dense {
	var R, G mat.Dense
	mulInto(&R, X, W)
	R.Sub(&R, Y)
	mulInto(&G, X.T(), &R)
	return &G
}

func scaled(W *mat.Dense, scale []float64) *mat.Dense {
	out := cp(W)
	r, o := out.Dims()
	for j := 0; j < r; j++ {
		for k := 0; k < o; k++ {
			out.Set(j, k, out.At(j, k)*scale[j])
		}
	}
	return out
}

func c37ols(c *C) {
	d, form, _ := linData(c, 25, 5, 4)
	fi, no := c.R.Bool(), c.R.Bool()
	c.Desc("LinearRegression, data %s%s FitIntercept=%v Normalize=%v", d, formName(form), fi, no)
	m := lm.NewLinearRegression()
	m.FitIntercept, m.Normalize = fi, no
	pred, dec := c37run(c, d, form, m)
	c37model(c, d, &m.LinearModel, fi, pred, dec)
	X, Y, scale := centred(d, fi, no)
	G := lsGrad(X, Y, scaled(m.Coef, scale))
	mag := mat.Norm(X, 2) * (mat.Norm(Y, 2) + 1)
	c.Check(mat.Max(absMat(G)) <= 1e-8*mag, "not-least-squares", "the residuals are not orthogonal to the features: X'(XW-Y) is %s", fmtMat(G))
	_ = fmt.Sprint
}

func absMat(m *mat.Dense) *mat.Dense {
	o := cp(m)
	o.Apply(func(_, _ int, v float64) float64 { return math.Abs(v) }, o)
	return o
}

func c37enet(c *C) {
	d, form, _ := linData(c, 20, 5, 3)
	if c.R.Bool() {
		d = RegData(c.R, d.N, d.F, 1, 3)
	}
	fi, no := c.R.Bool(), c.R.Bool()
	m := lm.NewElasticNet()
	m.FitIntercept, m.Normalize = fi, no
	m.L1Ratio = c.R.PickF(0.2, 0.5, 0.9, 1)
	m.Alpha = c.R.PickF(0.001, 0.01, 0.1, 0.5, 2)
	m.Tol = c.R.PickF(1e-2, 1e-4, 1e-6)
	m.Positive = d.O == 1 && c.R.Chance(3)
	m.MaxIter = c.R.PickI(1000, 1000, 1000, 2, 20)
	if c.R.Chance(3) {
		m.Selection = "random"
	}
	warm := c.R.Chance(4)
	if c.R.Chance(4) { // a feature without variation
		j := c.R.Intn(d.F)
		v := c.R.PickF(0, 1, 2)
		for i := 0; i < d.N; i++ {
			d.X.Set(i, j, v)
		}
		c.Probe("constant feature")
	}
	c.Desc("ElasticNet, data %s%s FitIntercept=%v Normalize=%v l1=%g alpha=%g tol=%g positive=%v iterations=%d selection=%s warm=%v", d, formName(form), fi, no, m.L1Ratio, m.Alpha, m.Tol, m.Positive, m.MaxIter, m.Selection, warm)
	if warm {
		e := RegData(c.R, d.N, d.F, d.O, 3)
		c.Sim("before", func() { m.Fit(e.X, e.Y) })
		m.WarmStart = true
	}
	pred, dec := c37run(c, d, form, m)
	c37model(c, d, &m.LinearModel, fi, pred, dec)
	X, Y, scale := centred(d, fi, no)
	W := scaled(m.Coef, scale)
	gap, primal := enetGap(X, Y, W, m.Alpha*m.L1Ratio*float64(d.N), m.Alpha*(1-m.L1Ratio)*float64(d.N), m.Positive)
	yy := 0.
	for i := 0; i < d.N; i++ {
		for k := 0; k < d.O; k++ {
			yy += Y.At(i, k) * Y.At(i, k)
		}
	}
	sc := math.Max(yy, math.Max(primal, 1))
	c.Check(math.Abs(gap-m.CDResult.Gap) <= 1e-8*sc, "gap", "the reported gap is %v, the gap of the coefficients is %v", m.CDResult.Gap, gap)
	c.Check(math.Abs(m.CDResult.Eps-m.Tol*yy) <= 1e-8*sc*m.Tol, "gap", "the reported tolerance is %v, the one asked for is %v", m.CDResult.Eps, m.Tol*yy)
	c.Check(m.CDResult.NIter >= 1 && m.CDResult.NIter <= m.MaxIter+1, "iterations", "%d iterations reported of %d", m.CDResult.NIter, m.MaxIter)
	if m.CDResult.NIter <= m.MaxIter {
		c.Check(gap <= m.Tol*yy+1e-8*sc, "not-the-solution", "duality gap %g above the tolerance %g although it stopped after %d iterations", gap, m.Tol*yy, m.CDResult.NIter)
		c.Probe("converged")
	} else if most := m.MaxIter / 10; m.Selection != "random" && !warm && enetPasses(X, Y, m.Alpha*m.L1Ratio*float64(d.N), m.Alpha*(1-m.L1Ratio)*float64(d.N), m.Tol, m.Positive, most) <= most {
		c.Check(gap <= m.Tol*yy+1e-8*sc, "not-the-solution", "duality gap %g above the tolerance %g after %d iterations, coordinate descent gets there in %d", gap, m.Tol*yy, m.CDResult.NIter, most)
	}
	if m.Positive {
		c.Check(mat.Min(m.Coef) >= 0, "negative-coefficient", "coefficients %s", fmtMat(m.Coef))
	}
}

func c37bayes(c *C) {
	d, form, _ := linData(c, 20, 4, 1)
	fi, no := c.R.Bool(), c.R.Bool()
	m := lm.NewBayesianRidge()
	m.FitIntercept, m.Normalize = fi, no
	m.ComputeScore = c.R.Bool()
	m.NIter = c.R.PickI(300, 300, 1, 2, 3)
	c.Desc("BayesianRidge, data %s%s FitIntercept=%v Normalize=%v iterations=%d", d, formName(form), fi, no, m.NIter)
	pred, dec := c37run(c, d, form, m)
	c37model(c, d, &m.LinearModel, fi, pred, dec)
	X, Y, scale := centred(d, fi, no)
	W := scaled(m.Coef, scale)
	G := lsGrad(X, Y, W)
	// X'(Y-XW) = rho W for some rho >= 0: project and compare
	num, den := 0., 0.
	for j := 0; j < d.F; j++ {
		num -= G.At(j, 0) * W.At(j, 0)
		den += W.At(j, 0) * W.At(j, 0)
	}
	rho := num / den
	mag := mat.Norm(X, 2) * (mat.Norm(Y, 2) + 1)
	c.Check(rho >= -1e-7*mag/math.Sqrt(den), "not-ridge", "the shrinkage is %v", rho)
	for j := 0; j < d.F; j++ {
		c.Check(math.Abs(-G.At(j, 0)-rho*W.At(j, 0)) <= 1e-7*mag, "not-ridge", "the coefficients solve no ridge problem: X'(Y-XW) is %v for feature %d, the shrinkage %v times W is %v", -G.At(j, 0), j, rho, rho*W.At(j, 0))
	}
	if m.NIter == 1 { // the first shrinkage is known: lambda=1, alpha=1/mean square of the targets
		c.Check(sameF(rho, math.Pow(mat.Norm(Y, 2), 2)/float64(d.N), 1e-5), "not-ridge", "the first shrinkage is %v, not %v", rho, math.Pow(mat.Norm(Y, 2), 2)/float64(d.N))
	}
}

func c37sgd(c *C) {
	d, form, _ := linData(c, 20, 3, 3)
	fi, no := c.R.Bool(), c.R.Bool()
	m := lm.NewSGDRegressor()
	m.FitIntercept, m.Normalize = fi, no
	m.Alpha = c.R.PickF(0, 0, 1e-4)
	m.NJobs = c.njobs()
	switch c.R.Intn(3) {
	case 0:
		m.Method = &optimize.BFGS{}
	case 1:
		m.Method = &optimize.NelderMead{}
	}
	c.Desc("SGDRegressor, data %s%s FitIntercept=%v Normalize=%v alpha=%g method %T njobs=%d", d, formName(form), fi, no, m.Alpha, m.Method, m.NJobs)
	pred, dec := c37run(c, d, form, m)
	c37model(c, d, &m.LinearModel, fi, pred, dec)
	X, Y, scale := centred(d, fi, no)
	loss := func(W *mat.Dense, k int) float64 {
		e := 0.
		for i := 0; i < d.N; i++ {
			v := Y.At(i, k)
			for j := 0; j < d.F; j++ {
				v -= X.At(i, j) * W.At(j, k)
			}
			e += v * v
		}
		return e / float64(2*d.N)
	}
	W := scaled(m.Coef, scale)
	best := &mat.Dense{}
	best.Solve(X, Y)
	for k := 0; k < d.O; k++ {
		zero := mat.NewDense(d.F, d.O, nil)
		f, fb, f0 := loss(W, k), loss(best, k), loss(zero, k)
		c.Check(f <= fb+1e-3*(f0-fb)+1e-9*f0+m.Alpha, "not-minimal", "output %d: mean square loss %g, the least possible is %g (%g with all-zero coefficients)", k, f, fb, f0)
	}
}

func c37logistic(c *C) {
	k := 2 + c.R.Intn(3)
	f := 1 + c.R.Intn(4)
	d := ClsData(c.R, 2*k+2+c.R.Intn(20), f, k, 1, 3, labelSets[c.R.Intn(len(labelSets))])
	mag := 1.
	if c.R.Chance(3) {
		j, l := c.R.Intn(f), c.R.Intn(f)
		how := c.R.Intn(3)
		for i := 0; i < d.N; i++ {
			switch how {
			case 0:
				d.X.Set(i, j, 2)
			case 1:
				d.X.Set(i, j, d.X.At(i, l))
			case 2:
				d.X.Set(i, j, 10*d.X.At(i, j))
				mag = 10
			}
		}
	}
	m := lm.NewLogisticRegression()
	m.Alpha = c.R.PickF(1, 0.1, 3)
	m.MaxIter = 2000
	m.Tol = c.R.PickF(1e-4, 1e-8, 1e-12)
	m.RandomState = base.NewSource(c.R.Seed())
	form := ""
	if c.R.Chance(3) {
		form = c.R.PickS(formNames...)
	}
	c.Desc("LogisticRegression, data %s%s alpha=%g", d, formName(form), m.Alpha)
	dl := cpData(d).as(form)
	var pr *mat.Dense
	c.Sim("fit", func() {
		m.Fit(dl.mX(), dl.mY())
		pr = cp(m.PredictProbas(d.X, nil))
	})
	// gradient of the penalised loss at the answer
	classes := sortedClasses(d.Y)
	no := len(classes)
	target := func(i, o int) float64 {
		if d.Y.At(i, 0) == classes[o] {
			return 1
		}
		return 0
	}
	if m.Coef.Cols == 1 {
		no = 1
		target = func(i, o int) float64 {
			if d.Y.At(i, 0) == classes[1] {
				return 1
			}
			return 0
		}
	}
	c.Check(m.Coef.Cols == no && len(m.Intercept) == no, "shape", "%d columns of coefficients for %d classes", m.Coef.Cols, len(classes))
	worst := 0.
	for o := 0; o < no; o++ {
		gi := 0.
		for i := 0; i < d.N; i++ {
			gi += pr.At(i, o) - target(i, o)
		}
		worst = math.Max(worst, math.Abs(gi)/float64(d.N))
		for j := 0; j < f; j++ {
			g := m.Alpha * m.Coef.Data[j*m.Coef.Stride+o]
			for i := 0; i < d.N; i++ {
				g += d.X.At(i, j) * (pr.At(i, o) - target(i, o))
			}
			worst = math.Max(worst, math.Abs(g)/float64(d.N))
		}
	}
	bound := map[float64]float64{1e-4: 3e-2, 1e-8: 1e-4, 1e-12: 1e-5}[m.Tol]
	c.Check(worst <= mag*bound, "not-minimal", "the gradient of the penalised loss at the answer reaches %g after %d evaluations", worst, len(m.LossCurve))
}

func sortedClasses(Y *mat.Dense) (out []float64) {
	seen := map[float64]bool{}
	r, _ := Y.Dims()
	for i := 0; i < r; i++ {
		if v := Y.At(i, 0); !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	sort.Float64s(out)
	return
}

// c37perceptron trains perceptrons with the quasi-Newton solver: where it ends, the loss reported is
// that of the network, and its gradient vanishes.
func c37perceptron(c *C) {
	r := c.R
	t := &trainConf{kind: r.PickS("regressor", "regressor", "binary", "onehot", "classes"), act: r.PickS("identity", "logistic", "tanh"), solver: "lbfgs",
		lr: "constant", alpha: r.PickF(0.01, 0.1, 1), lrInit: 0.001, power: 0.5, tol: r.PickF(1e-4, 1e-8, 1e-12), maxIter: r.PickI(3000, 3000, 3000, 5, 20), patience: 10, beta1: 0.9, beta2: 0.999, eps: 1e-8, valid: 0.1}
	for k := r.Intn(3); k > 0; k-- {
		t.hidden = append(t.hidden, 1+r.Intn(3))
	}
	n, f := 6+r.Intn(10), 1+r.Intn(3)
	var d *Data
	switch t.kind {
	case "regressor":
		d = RegData(r, n, f, 1+r.Intn(2), 1)
	case "binary":
		d = ClsData(r, n, f, 2, 1, 1, []float64{0, 1})
	default:
		d = ClsData(r, n, f, 3, 1, 1, []float64{0, 1, 2})
	}
	if t.kind == "onehot" {
		Y := mat.NewDense(n, 3, nil)
		for i := 0; i < n; i++ {
			Y.Set(i, int(d.Y.At(i, 0)), 1)
		}
		d.Y, d.O = Y, 3
	}
	if r.Chance(3) {
		d.as(r.PickS(formNames...))
	}
	seed := r.Seed()
	c.Desc("%s, %s", t, d)
	var g *fitted
	c.Sim("fit", func() {
		m := t.model(base.NewSource(seed))
		fitNet(m, d.mX(), d.mY())
		g = observe(m)
	})
	T := target(d, len(g.bias[len(g.bias)-1]), t.kind != "regressor")
	if T == nil {
		return
	}
	e := netOf(t, g)
	act, del := make([]*mat.Dense, len(e.w)), make([]*mat.Dense, len(e.w))
	for l := range e.w {
		_, cc := e.w[l].Dims()
		act[l], del[l] = mat.NewDense(n, cc, nil), mat.NewDense(n, cc, nil)
	}
	loss, grad := e.backprop(d.X, T, act, del)
	worst := 0.
	for _, v := range grad {
		worst = math.Max(worst, math.Abs(v))
	}
	c.Check(sameF(g.loss, loss, 1e-9*(1+loss)), "loss", "the loss reported is %v, that of the network is %v", g.loss, loss)
	if t.maxIter >= 3000 && len(g.curve) < t.maxIter && t.tol < 1e-4 {
		c.Check(worst <= map[float64]float64{1e-8: 1e-2, 1e-12: 1e-3}[t.tol]*(1+g.curve[0]), "not-minimal", "the gradient of the loss at the answer reaches %g after %d evaluations", worst, len(g.curve))
		c.Probe("network converged")
	}
}
