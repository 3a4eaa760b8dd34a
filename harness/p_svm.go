//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"

	"verifsim"
)

func init() {
	register("C36", &Scenario{Name: "svc", Weight: 2, F: func(c *C) { c36svm(c, true) }})
	register("C36", &Scenario{Name: "svr", Weight: 2, F: func(c *C) { c36svm(c, false) }})
}

// ---------------------------------------------------------------- C36

// picker is the random state the simulator hands to a support vector machine: it decides which second
// row of each pair is tried, in a way drawn for the case, and records its answers.
type picker struct {
	r     *Rng
	style int
	k     int
	picks []int
}

func (s *picker) Uint64() uint64   { return s.r.U64() }
func (s *picker) Seed(seed uint64) { s.r = NewRng(seed) }
func (s *picker) Intn(n int) int {
	s.k++
	j := 0
	switch s.style {
	case 0:
		j = s.r.Intn(n)
	case 1: // round robin
		j = s.k % n
	case 2: // mostly one row
		if s.r.Intn(4) == 0 {
			j = s.r.Intn(n)
		}
	case 3: // mostly the last row
		j = n - 1
		if s.r.Intn(4) == 0 {
			j = s.r.Intn(n)
		}
	case 4: // bursts of the same row
		j = (s.k / 5) % n
	}
	s.picks = append(s.picks, j)
	return j
}

type svmConf struct {
	kernel                            string
	c, eps, gamma, coef0, degree, tol float64
	maxIter                           int
	cache                             uint
}

func (t *svmConf) String() string {
	return fmt.Sprintf("kernel=%s C=%g epsilon=%g gamma=%g coef0=%g degree=%g tol=%g passes=%d cache=%d", t.kernel, t.c, t.eps, t.gamma, t.coef0, t.degree, t.tol, t.maxIter, t.cache)
}

type laplaceKernel struct{ g float64 }

func (l laplaceKernel) Func(a, b []float64) float64 {
	s := 0.
	for i := range a {
		s += math.Abs(a[i] - b[i])
	}
	return math.Exp(-l.g * s)
}

// k is the kernel the configuration asks for, written out.
func (t *svmConf) k(a, b []float64) float64 {
	g := t.gamma
	if g <= 0 {
		g = 1 / float64(len(a))
	}
	dot, d2 := 0., 0.
	for i := range a {
		dot += a[i] * b[i]
		d2 += (a[i] - b[i]) * (a[i] - b[i])
	}
	switch t.kernel {
	case "linear":
		return dot
	case "poly", "polynomial":
		return math.Pow(g*dot+t.coef0, t.degree)
	case "sigmoid":
		return math.Tanh(g*dot + t.coef0)
	case "func":
		return dot + 0.5*dot*dot
	case "laplace":
		return laplaceKernel{0.3}.Func(a, b)
	}
	return math.Exp(-g * d2)
}

func (t *svmConf) fill(m *svm.BaseLibSVM, s base.Source) {
	m.C, m.Epsilon, m.Gamma, m.Coef0, m.Degree, m.Tol, m.MaxIter, m.CacheSize, m.RandomState = t.c, t.eps, t.gamma, t.coef0, t.degree, t.tol, t.maxIter, t.cache, s
	switch t.kernel {
	case "func":
		m.Kernel = func(a, b []float64) float64 {
			verifsim.Y()
			return t.k(a, b)
		}
	case "laplace":
		m.Kernel = laplaceKernel{0.3}
	default:
		m.Kernel = t.kernel
	}
}

func c36svm(c *C, classify bool) {
	n, f, o, q := 2+c.R.Intn(14), 1+c.R.Intn(3), 1+c.R.Intn(3), 1+c.R.Intn(6)
	if c.R.Chance(3) {
		o = 1
	}
	t := &svmConf{
		kernel: c.R.PickS("linear", "poly", "polynomial", "rbf", "rbf", "", "sigmoid", "func", "laplace"),
		c:      []float64{0.1, 1, 1, 10, 100}[c.R.Intn(5)],
		eps:    []float64{0.1, 0.1, 0.01, 0.3}[c.R.Intn(4)],
		gamma:  []float64{0, 0, 0.5, 1, 2}[c.R.Intn(5)],
		coef0:  []float64{0, 1, 0.5}[c.R.Intn(3)],
		degree: []float64{3, 2, 1}[c.R.Intn(3)],
		tol:    []float64{1e-3, 1e-3, 1e-6, 1e-9, 1e-300, 1e-300}[c.R.Intn(6)], // with 1e-300 no multiplier is left out
		cache:  []uint{200, 200, 1, 0}[c.R.Intn(4)],
	}
	t.maxIter = 1 + c.R.Intn(6)
	if c.R.Chance(4) {
		t.maxIter = 30
	}
	var d *Data
	if classify {
		d = ClsData(c.R, n, f, 2, o, q, []float64{-1, 1})
		if c.R.Chance(3) { // classes that overlap
			for i := 0; i < n; i++ {
				for j := 0; j < f; j++ {
					d.X.Set(i, j, d.X.At(i, j)*0.2+c.R.Norm())
				}
			}
		}
	} else {
		d = RegData(c.R, n, f, o, q)
	}
	if c.R.Chance(4) && n > 3 { // a row that occurs twice
		d.X.SetRow(n-1, append([]float64(nil), d.X.RawRowView(0)...))
	}
	form := ""
	if c.R.Chance(4) {
		form = c.R.PickS(formNames...)
	}
	kind := c.R.PickS("picker", "picker", "picker", "source", "locked", "global")
	style, seed := c.R.Intn(5), c.R.Seed()
	c.Desc("%d rows, %d features, %d outputs, %s, random state: %s (style %d)%s", n, f, o, t, kind, style, formName(form))
	dl := cpData(d).as(form)
	pk := &picker{r: NewRng(seed), style: style}
	var src base.Source
	switch kind {
	case "picker":
		src = pk
	case "source":
		src = base.NewSource(seed)
	case "locked":
		src = base.NewLockedSource(seed)
	}
	var b *svm.BaseLibSVM
	var pred, pred2, tr *mat.Dense
	c.MaxSt = 3000000
	res := c.Run("fit and predict", c.SimCfg(), func() {
		var m base.Predicter
		if classify {
			s := svm.NewSVC()
			b, m = &s.BaseLibSVM, s
		} else {
			s := svm.NewSVR()
			b, m = &s.BaseLibSVM, s
		}
		t.fill(b, src)
		m.Fit(dl.mX(), dl.mY())
		pred = cp(m.Predict(dl.mQ(), nil))
		pred2 = mat.NewDense(q, o, nil)
		m.Predict(dl.mQ(), pred2)
		tr = cp(m.Predict(dl.mX(), nil))
	})
	if res.StepLimit { // the number of rounds training takes is not bounded
		c.Probe("too many rounds")
		return
	}
	c.judge("fit and predict", res)
	K := mat.NewDense(n, n, nil)
	maxK := 0.
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			K.Set(i, j, t.k(d.X.RawRowView(i), d.X.RawRowView(j)))
			maxK = math.Max(maxK, math.Abs(K.At(i, j)))
		}
	}
	c.Check(len(b.Model) == o && len(b.Support) == o && len(b.SupportVectors) == o, "shape", "%d outputs, but %d models, %d supports, %d support vector lists", o, len(b.Model), len(b.Support), len(b.SupportVectors))
	for k := 0; k < o; k++ {
		c36output(c, t, d, K, maxK, b, k, classify, pred, pred2, tr)
	}
	if kind == "picker" && o == 1 {
		c36stop(c, t, d, K, maxK, b, classify, pk.picks)
	}
	c.Probe("kernel " + t.kernel)
}

// c36coef gives the coefficient (signed multiplier) of every training row.
func c36coef(d *Data, b *svm.BaseLibSVM, k int, classify bool) (coef, alpha []float64) {
	coef, alpha = make([]float64, d.N), make([]float64, d.N)
	for ii, i := range b.Model[k].Support {
		alpha[i] = b.Model[k].Alphas[ii]
		coef[i] = alpha[i]
		if classify {
			coef[i] *= d.Y.At(i, k)
		}
	}
	return
}

func c36output(c *C, t *svmConf, d *Data, K *mat.Dense, maxK float64, b *svm.BaseLibSVM, k int, classify bool, pred, pred2, tr *mat.Dense) {
	m := b.Model[k]
	n := d.N
	c.Check(sort.IntsAreSorted(m.Support) && fmt.Sprint(m.Support) == fmt.Sprint(b.Support[k]), "support", "output %d: support %v (model) and %v", k, m.Support, b.Support[k])
	c.Check(len(m.Alphas) == len(m.Support) && len(b.SupportVectors[k]) == len(m.Support), "support", "output %d: %d support rows, %d multipliers, %d support vectors", k, len(m.Support), len(m.Alphas), len(b.SupportVectors[k]))
	if classify {
		c.Check(len(m.Y) == len(m.Support), "support", "output %d: %d support rows, %d targets", k, len(m.Support), len(m.Y))
	}
	rt := 1e-9 * (1 + t.c) * float64(n)
	sum := 0.
	for ii, i := range m.Support {
		c.Check(i >= 0 && i < n && (ii == 0 || m.Support[ii-1] < i), "support", "output %d: support %v of %d rows", k, m.Support, n)
		for j := 0; j < d.F; j++ {
			v := d.X.At(i, j)
			c.Check(m.X.At(ii, j) == v && b.SupportVectors[k][ii][j] == v, "support", "output %d: support vector %d is row %d, but feature %d is %v in the model and %v in SupportVectors, not %v", k, ii, i, j, m.X.At(ii, j), b.SupportVectors[k][ii][j], v)
		}
		a := m.Alphas[ii]
		c.Check(math.Abs(a) <= t.c+rt, "box", "output %d: multiplier of row %d is %v, C is %v", k, i, a, t.c)
		if classify {
			c.Check(a > 0, "box", "output %d: multiplier of support row %d is %v", k, i, a)
			c.Check(m.Y[ii] == d.Y.At(i, k), "support", "output %d: target of support row %d is %v, was %v", k, i, m.Y[ii], d.Y.At(i, k))
		}
	}
	coef, alpha := c36coef(d, b, k, classify)
	drop := float64(n) * t.tol
	for _, v := range coef {
		sum += v
	}
	c.Check(math.Abs(sum) <= rt+drop, "equality", "output %d: the signed multipliers sum to %v (C=%v, tol=%v)", k, sum, t.c, t.tol)

	// decision function
	fx := func(x []float64) (y, mag float64) {
		y, mag = m.B, math.Abs(m.B)
		for i, v := range coef {
			if v != 0 {
				p := v * t.k(x, d.X.RawRowView(i))
				y += p
				mag += math.Abs(p)
			}
		}
		return
	}
	judge := func(X, P *mat.Dense, what string) {
		r, _ := X.Dims()
		for i := 0; i < r; i++ {
			y, mag := fx(X.RawRowView(i))
			got := P.At(i, k)
			if classify {
				if math.Abs(y) <= 1e-9*mag {
					c.Check(got == 0 || got == 1, "predict", "%s row %d, output %d: predicted %v", what, i, k, got)
					continue
				}
				want := 0.
				if y >= 0 {
					want = 1
				}
				c.Check(got == want, "predict", "%s row %d, output %d: the decision function is %v, but the prediction %v", what, i, k, y, got)
			} else {
				c.Check(math.Abs(got-y) <= 1e-9*(mag+1e-12), "predict", "%s row %d, output %d: the decision function is %v, but the prediction %v", what, i, k, y, got)
			}
		}
	}
	judge(d.Q, pred, "query")
	judge(d.Q, pred2, "query (into a given matrix)")
	judge(d.X, tr, "training")

	// dual objective: training starts at 0 and every step may only improve it
	slack := 1e-7*(1+maxK*t.c) + drop*(1+maxK*t.c*float64(n))
	if classify {
		W := 0.
		for i := range alpha {
			W += alpha[i]
			for j := range alpha {
				W -= 0.5 * coef[i] * coef[j] * K.At(i, j)
			}
		}
		c.Check(W >= -slack, "objective", "output %d: the dual objective is %v, worse than that of all-zero multipliers", k, W)
	}
	// offset: the last pair moved leaves a free row on the margin or a pair with opposite errors
	if len(m.Support) > 0 && t.tol <= 1e-6 {
		E := make([]float64, n)
		for i := range E {
			y, _ := fx(d.X.RawRowView(i))
			E[i] = y - d.Y.At(i, k)
		}
		es := 1e-7*(1+maxK*t.c*float64(n)) + 2*drop*maxK
		ok := false
		for i := range E {
			for j := 0; j < i; j++ {
				ok = ok || math.Abs(E[i]+E[j]) <= es
			}
			ok = ok || classify && math.Abs(E[i]) <= es
		}
		c.Check(ok, "offset", "output %d: offset %v leaves no support row on the margin and no pair with opposite errors: errors %v, multipliers %v, C=%v", k, m.B, E, alpha, t.c)
		c.Probe("offset judged")
	}
	if len(m.Support) > 0 {
		c.Probe("has support")
	}
}

// c36stop judges when training stopped: either no row violates the optimality conditions, or the last
// passes tried a partner for every such row and none of the pairs could move.
func c36stop(c *C, t *svmConf, d *Data, K *mat.Dense, maxK float64, b *svm.BaseLibSVM, classify bool, picks []int) {
	if t.tol > 1e-6 {
		return
	}
	n := d.N
	coef, alpha := c36coef(d, b, 0, classify)
	es := 1e-6*(1+maxK*t.c*float64(n)) + 2*float64(n)*t.tol*maxK
	as := 1e-9*(1+t.c) + 2*t.tol
	E := make([]float64, n)
	for i := range E {
		E[i] = b.Model[0].B - d.Y.At(i, 0)
		for j := range coef {
			E[i] += coef[j] * K.At(i, j)
		}
	}
	var must []int // rows that surely violate
	may := 0       // rows that may
	for i := range E {
		lo, e := -t.c, E[i]
		if classify {
			lo, e = 0, E[i]*d.Y.At(i, 0)
		}
		if e < -t.eps-es && alpha[i] < t.c-as || e > t.eps+es && alpha[i] > lo+as {
			must = append(must, i)
		}
		if e < -t.eps+es && alpha[i] < t.c || e > t.eps-es && (alpha[i] > lo || t.tol > 1e-200 && alpha[i] > lo-as) {
			may++
		}
	}
	if may == 0 {
		c.Probe("optimal")
		return
	}
	if len(must) > 0 {
		c.Check(len(picks) >= t.maxIter*len(must), "stopped early", "rows %v violate the optimality conditions at the end, but only %d pairs were tried in all (%d passes without change are due)", must, len(picks), t.maxIter)
	}
	if !classify {
		for _, i := range must {
			moved := ""
			for j := 0; j < n; j++ {
				if j == i {
					continue
				}
				a, sure := svrPair(t, K, E, alpha, i, j, es, as)
				if !sure {
					moved = ""
					break
				}
				moved += fmt.Sprintf(" %d: %v to %v;", j, alpha[j], a)
			}
			c.Check(moved == "", "stopped early", "training stopped although row %d violates the optimality conditions (error %v, epsilon %v) and moves with any partner:%s", i, E[i], t.eps, moved)
		}
		c.Probe("stopped by passes")
		return
	}
	if may != len(must) {
		return
	}
	c.Probe("stopped by passes")
	tail := picks[len(picks)-t.maxIter*len(must):]
	for k, j := range tail {
		i := must[k%len(must)]
		if j >= i {
			j++
		}
		yi, yj := d.Y.At(i, 0), d.Y.At(j, 0)
		L, H := math.Max(0, alpha[j]+alpha[i]-t.c), math.Min(t.c, alpha[j]+alpha[i])
		if yi != yj {
			L, H = math.Max(0, alpha[j]-alpha[i]), math.Min(t.c, t.c+alpha[j]-alpha[i])
		}
		eta := 2*K.At(i, j) - K.At(i, i) - K.At(j, j)
		if H-L <= as || eta >= -1e-6*(1+maxK) {
			continue
		}
		a := alpha[j] - yj*(E[i]-E[j])/eta
		a = math.Max(L, math.Min(H, a))
		c.Check(math.Abs(a-alpha[j]) <= 2*t.tol+as+3*es/-eta, "stopped early", "training stopped, but in its last %d passes it tried rows %d and %d, and moving this pair takes the multiplier of row %d from %v to %v", t.maxIter, i, j, j, alpha[j], a)
	}
}

// svrPair is the joint step of a violating row and its partner in regression: the new multiplier of
// the partner, and whether the step surely is worth it (a significant change that lowers the errors).
func svrPair(t *svmConf, K *mat.Dense, E, alpha []float64, i, j int, es, as float64) (a float64, sure bool) {
	eta := 2*K.At(i, j) - K.At(i, i) - K.At(j, j)
	if eta > -1e-3 {
		return 0, false
	}
	sum, delta := alpha[i]+alpha[j], -2*t.eps/eta
	a = alpha[j] - (E[i]-E[j])/eta
	margin := as + 10*es/-eta
	ai := sum - a
	if math.Min(math.Abs(a), math.Abs(ai)) < margin {
		return a, false
	}
	if a*ai < 0 {
		big := math.Max(math.Abs(a), math.Abs(ai))
		if math.Abs(big-delta) < margin || big < delta && math.Abs(math.Abs(a)-math.Abs(ai)) < margin {
			return a, false
		}
		switch {
		case big > delta && a > 0:
			a -= delta
		case big > delta:
			a += delta
		case math.Abs(a) > math.Abs(ai):
			a = sum
		default:
			a = 0
		}
	}
	a = math.Min(math.Min(t.c, t.c+sum), math.Max(math.Max(sum-t.c, -t.c), a))
	ai = sum - a
	ei := E[i] + (ai-alpha[i])*K.At(i, i) + (a-alpha[j])*K.At(i, j)
	ej := E[j] + (ai-alpha[i])*K.At(i, j) + (a-alpha[j])*K.At(j, j)
	db := -(ei + ej) / 2
	return a, math.Abs(a-alpha[j]) > t.tol+margin && math.Abs(E[i])+math.Abs(E[j]) > math.Abs(ei+db)+math.Abs(ej+db)+20*es
}
