//go:build go1.21

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C29", &Scenario{Name: "training", Weight: 1, F: c29training})
}

// ---------------------------------------------------------------- C29

// recSource is the random state the simulator hands to a perceptron: it answers draws from the case's
// seed and records every shuffle it was asked for.
type recSource struct {
	r    *Rng
	shuf [][][2]int
}

func (s *recSource) Uint64() uint64   { return s.r.U64() }
func (s *recSource) Seed(seed uint64) { s.r = NewRng(seed) }
func (s *recSource) Float64() float64 { return s.r.Float() }
func (s *recSource) Shuffle(n int, swap func(i, j int)) {
	var rec [][2]int
	for i := n - 1; i > 0; i-- {
		j := s.r.Intn(i + 1)
		rec = append(rec, [2]int{i, j})
		swap(i, j)
	}
	s.shuf = append(s.shuf, rec)
}

type trainConf struct {
	kind                           string // regressor, binary, onehot, classes
	single                         bool   // in single precision
	hidden                         []int
	act, solver, lr                string
	alpha, lrInit, power, tol      float64
	batch, maxIter, patience       int
	shuffle, nesterov, early, warm bool
	momentum, decay, valid         float64
	beta1, beta2, eps              float64
}

func (t *trainConf) String() string {
	return fmt.Sprintf("%s single=%v hidden=%v %s %s lr=%s(%g, power %g) alpha=%g batch=%d epochs<=%d patience=%d tol=%g shuffle=%v momentum=%g nesterov=%v decay=%g early=%v(%g) warm=%v", t.kind, t.single, t.hidden, t.act, t.solver, t.lr, t.lrInit, t.power, t.alpha, t.batch, t.maxIter, t.patience, t.tol, t.shuffle, t.momentum, t.nesterov, t.decay, t.early, t.valid, t.warm)
}

// edge is how near a stopping decision has to be to depend on rounding
func (t *trainConf) edge(v float64) float64 {
	if t.single {
		return 5e-3 * (1 + math.Abs(v))
	}
	return 1e-6
}

func (t *trainConf) fill(m *nn.BaseMultilayerPerceptron64, s base.Source) {
	m.HiddenLayerSizes, m.Activation, m.Solver, m.Alpha, m.LearningRate, m.LearningRateInit, m.PowerT = t.hidden, t.act, t.solver, t.alpha, t.lr, t.lrInit, t.power
	m.BatchSize, m.MaxIter, m.NIterNoChange, m.Tol, m.Shuffle, m.Momentum, m.NesterovsMomentum = t.batch, t.maxIter, t.patience, t.tol, t.shuffle, t.momentum, t.nesterov
	m.WeightDecay, m.EarlyStopping, m.ValidationFraction, m.Beta1, m.Beta2, m.Epsilon, m.RandomState = t.decay, t.early, t.valid, t.beta1, t.beta2, t.eps, s
}

func (t *trainConf) model(s base.Source) interface{} {
	switch {
	case t.single:
		b := &nn.BaseMultilayerPerceptron64{}
		t.fill(b, s)
		m := nn.NewBaseMultilayerPerceptron32()
		m.HiddenLayerSizes, m.Activation, m.Solver, m.Alpha, m.LearningRate, m.LearningRateInit, m.PowerT = b.HiddenLayerSizes, b.Activation, b.Solver, float32(b.Alpha), b.LearningRate, float32(b.LearningRateInit), float32(b.PowerT)
		m.BatchSize, m.MaxIter, m.NIterNoChange, m.Tol, m.Shuffle, m.Momentum, m.NesterovsMomentum = b.BatchSize, b.MaxIter, b.NIterNoChange, float32(b.Tol), b.Shuffle, float32(b.Momentum), b.NesterovsMomentum
		m.WeightDecay, m.EarlyStopping, m.ValidationFraction, m.Beta1, m.Beta2, m.Epsilon, m.RandomState = float32(b.WeightDecay), b.EarlyStopping, float32(b.ValidationFraction), float32(b.Beta1), float32(b.Beta2), float32(b.Epsilon), s
		m.LossFuncName = "square_loss"
		return m
	case t.kind == "regressor":
		m := nn.NewMLPRegressor(nil, t.act, t.solver, t.alpha)
		t.fill(&m.BaseMultilayerPerceptron64, s)
		return m
	}
	m := nn.NewMLPClassifier(nil, t.act, t.solver, t.alpha)
	t.fill(&m.BaseMultilayerPerceptron64, s)
	return m
}

func fitNet(m interface{}, X, Y mat.Matrix) {
	switch m := m.(type) {
	case *nn.MLPRegressor:
		m.Fit(X, Y)
	case *nn.MLPClassifier:
		m.Fit(X, Y)
	case *nn.BaseMultilayerPerceptron32:
		m.Fit(X, Y)
	}
}

func warmNet(m interface{}) {
	switch m := m.(type) {
	case *nn.MLPRegressor:
		m.WarmStart = true
	case *nn.MLPClassifier:
		m.WarmStart = true
	case *nn.BaseMultilayerPerceptron32:
		m.WarmStart = true
	}
}

// refNet is the executable reference model of a perceptron in training.
type refNet struct {
	t    *trainConf
	w    []*mat.Dense
	b    [][]float64
	out  string
	loss string

	iters, samples, noImp int
	best                  float64
	curve                 []float64
	border                bool // a stopping decision too close to call
	bestScore             float64

	// variants that are known findings
	stale, perParam bool
}

func (n *refNet) each(f func(k int, p *float64)) {
	k := 0
	for l := range n.w {
		for j := range n.b[l] {
			f(k, &n.b[l][j])
			k++
		}
		d := n.w[l].RawMatrix().Data
		for j := range d {
			f(k, &d[j])
			k++
		}
	}
}

func (n *refNet) params() []float64 {
	var out []float64
	n.each(func(_ int, p *float64) { out = append(out, *p) })
	return out
}

// rows applies f to rows [0,r) of m.
func head(m *mat.Dense, r int) *mat.Dense {
	_, c := m.Dims()
	return m.Slice(0, r, 0, c).(*mat.Dense)
}

// backprop computes loss and gradients of a batch; act and del are the buffers of this fit.
func (n *refNet) backprop(X, T *mat.Dense, act, del []*mat.Dense) (float64, []float64) {
	nb, no := T.Dims()
	full := nb
	if n.stale {
		full, _ = act[0].Dims()
	}
	L := len(n.w)
	for l := 0; l < L; l++ {
		a := head(act[l], full)
		if l == 0 {
			var z mat.Dense
			mulInto(&z, X, n.w[0])
			head(a, nb).Copy(&z)
		} else {
			var z mat.Dense
			mulInto(&z, head(act[l-1], full), n.w[l])
			a.Copy(&z)
		}
		a.Apply(func(_, j int, v float64) float64 { return v + n.b[l][j] }, a)
		if l == L-1 {
			activate(n.out, a)
		} else {
			activate(n.t.act, a)
		}
	}
	h, d := act[L-1], del[L-1]
	loss := 0.0
	for i := 0; i < nb; i++ {
		for j := 0; j < no; j++ {
			p, t := h.At(i, j), T.At(i, j)
			d.Set(i, j, p-t)
			if n.out != "identity" {
				if n.t.single && (p < 2e-3 || p > 1-2e-3) { // the logarithm of a rounded number
					n.border = true
				}
				p = math.Min(math.Max(p, math.SmallestNonzeroFloat64), math.Nextafter(1, 0))
			}
			switch n.out {
			case "identity":
				loss += (p - t) * (p - t) / 2
			case "softmax":
				if t != 0 {
					loss -= t * math.Log(p)
				}
			default:
				loss -= t*math.Log(p) + (1-t)*math.Log1p(-p)
			}
		}
	}
	loss /= float64(full)
	sq := 0.0
	for _, w := range n.w {
		for _, v := range w.RawMatrix().Data {
			sq += v * v
		}
	}
	loss += n.t.alpha / 2 * sq / float64(nb)
	gw, gb := make([]*mat.Dense, L), make([][]float64, L)
	for l := L - 1; l >= 0; l-- {
		dl := head(del[l], full)
		if l < L-1 {
			var z mat.Dense
			mulInto(&z, head(del[l+1], full), n.w[l+1].T())
			z.Apply(func(i, j int, v float64) float64 {
				a := act[l].At(i, j)
				switch n.t.act {
				case "logistic":
					return v * a * (1 - a)
				case "tanh":
					return v * (1 - a*a)
				case "relu":
					if a == 0 {
						return 0
					}
				}
				return v
			}, &z)
			dl.Copy(&z)
		}
		gw[l] = &mat.Dense{}
		if l == 0 {
			mulInto(gw[l], X.T(), head(del[0], nb))
		} else {
			mulInto(gw[l], head(act[l-1], full).T(), dl)
		}
		gw[l].Apply(func(i, j int, v float64) float64 { return (v + n.t.alpha*n.w[l].At(i, j)) / float64(nb) }, gw[l])
		_, c := dl.Dims()
		gb[l] = make([]float64, c)
		for i := 0; i < full; i++ {
			for j := range gb[l] {
				gb[l][j] += dl.At(i, j) / float64(full)
			}
		}
	}
	var g []float64
	for l := range gw {
		g = append(g, gb[l]...)
		g = append(g, gw[l].RawMatrix().Data...)
	}
	return loss, g
}

func (n *refNet) score(X, T *mat.Dense) float64 {
	h := mat.DenseCopyOf(X)
	for l := range n.w {
		var z mat.Dense
		mulInto(&z, h, n.w[l])
		z.Apply(func(_, j int, v float64) float64 { return v + n.b[l][j] }, &z)
		h = &z
		if l == len(n.w)-1 {
			activate(n.out, h)
		} else {
			activate(n.t.act, h)
		}
	}
	rows, cols := T.Dims()
	if n.out == "identity" {
		s := 0.0
		for j := 0; j < cols; j++ {
			m, num, den := 0.0, 0.0, 0.0
			for i := 0; i < rows; i++ {
				m += T.At(i, j) / float64(rows)
			}
			for i := 0; i < rows; i++ {
				num += (h.At(i, j) - T.At(i, j)) * (h.At(i, j) - T.At(i, j))
				den += (m - T.At(i, j)) * (m - T.At(i, j))
			}
			s += 1 - num/den
		}
		return s / float64(cols)
	}
	ok := 0
	for i := 0; i < rows; i++ {
		same := true
		best := 0
		for j := 1; j < cols; j++ {
			if h.At(i, j) > h.At(i, best) {
				best = j
			}
		}
		for j := 0; j < cols; j++ { // labels that rounding decides
			if cols == 1 && math.Abs(h.At(i, 0)-0.5) < n.t.edge(1) || j != best && h.At(i, best)-h.At(i, j) < n.t.edge(1) {
				n.border = true
			}
		}
		for j := 0; j < cols; j++ {
			v := 0.0
			if cols == 1 && h.At(i, 0) > 0.5 || cols > 1 && j == best {
				v = 1
			}
			same = same && v == T.At(i, j)
		}
		if same {
			ok++
		}
	}
	return float64(ok) / float64(rows)
}

// fit trains on rows X, T; shuf are the shuffles of the epochs.
func (n *refNet) fit(X, T *mat.Dense, shuf [][][2]int) {
	t := n.t
	rows, _ := X.Dims()
	batch := t.batch
	if batch <= 0 || batch > rows {
		batch = rows
		if t.batch <= 0 && batch > 200 {
			batch = 200
		}
	}
	act, del := make([]*mat.Dense, len(n.w)), make([]*mat.Dense, len(n.w))
	for l := range n.w {
		_, c := n.w[l].Dims()
		act[l], del[l] = mat.NewDense(batch, c, nil), mat.NewDense(batch, c, nil)
	}
	order := make([]int, rows)
	for i := range order {
		order[i] = i
	}
	np := len(n.params())
	vel, m1, m2 := make([]float64, np), make([]float64, np), make([]float64, np)
	lr := t.lrInit
	p1, p2 := 1.0, 1.0
	train := rows
	if t.early {
		train -= int(math.Ceil(t.valid * float64(rows)))
	}
	keep := n.params()
	for ep := 0; ep < t.maxIter; ep++ {
		if t.shuffle {
			for _, s := range shuf[ep] {
				order[s[0]], order[s[1]] = order[s[1]], order[s[0]]
			}
		}
		acc := 0.0
		for a := 0; a < train; a += batch {
			z := a + batch
			if z > train {
				z = train
			}
			if t.decay > 0 {
				n.each(func(_ int, p *float64) { *p *= 1 - t.decay })
			}
			L, g := n.backprop(takeRows(X, order[a:z]), takeRows(T, order[a:z]), act, del)
			acc += L * float64(z-a)
			if !n.perParam {
				p1, p2 = p1*t.beta1, p2*t.beta2
			}
			n.each(func(k int, p *float64) {
				if t.solver == "sgd" {
					vel[k] = t.momentum*vel[k] - lr*g[k]
					if t.nesterov {
						*p += t.momentum*vel[k] - lr*g[k]
					} else {
						*p += vel[k]
					}
					return
				}
				if n.perParam {
					p1, p2 = p1*t.beta1, p2*t.beta2
				}
				m1[k] = t.beta1*m1[k] + (1-t.beta1)*g[k]
				m2[k] = t.beta2*m2[k] + (1-t.beta2)*g[k]*g[k]
				*p -= t.lrInit * math.Sqrt(1-p2) / (1 - p1) * m1[k] / (math.Sqrt(m2[k]) + t.eps)
			})
		}
		n.iters++
		n.samples += rows
		loss := acc / float64(rows)
		n.curve = append(n.curve, loss)
		if t.early {
			s := n.score(takeRows(X, order[train:]), takeRows(T, order[train:]))
			ref := n.bestScore
			if math.Abs(s-ref-t.tol) < t.edge(s)/10 && len(n.curve) > 1 {
				n.border = true
			}
			if s < ref+t.tol {
				n.noImp++
			} else {
				n.noImp = 0
			}
			if s != n.bestScore && math.Abs(s-n.bestScore) < t.edge(s)/10 {
				n.border = true
			}
			if len(n.curve) == 1 || s > n.bestScore {
				n.bestScore, keep = s, n.params()
			}
		} else {
			if math.Abs(loss-n.best+t.tol) < t.edge(loss) {
				n.border = true
			}
			if loss > n.best-t.tol {
				n.noImp++
			} else {
				n.noImp = 0
			}
		}
		n.best = math.Min(n.best, loss)
		if t.solver == "sgd" && t.lr == "invscaling" {
			lr = t.lrInit / math.Pow(float64(n.samples)+1, t.power)
		}
		if n.noImp > t.patience {
			if t.solver != "sgd" || t.lr != "adaptive" || lr <= 1e-6 {
				break
			}
			lr /= 5
			n.noImp = 0
		}
	}
	if t.early {
		n.each(func(k int, p *float64) { *p = keep[k] })
	}
}

func netOf(t *trainConf, f *fitted) *refNet {
	n := &refNet{t: t, out: strings.ToLower(f.out), loss: f.lossFn, best: math.Inf(1), bestScore: math.Inf(-1)}
	for l := range f.coefs {
		n.w, n.b = append(n.w, mat.DenseCopyOf(f.coefs[l])), append(n.b, append([]float64(nil), f.bias[l]...))
	}
	return n
}

func c29training(c *C) {
	r := c.R
	t := &trainConf{kind: r.PickS("regressor", "regressor", "binary", "onehot", "classes"), single: r.Chance(4), act: r.PickS("identity", "logistic", "tanh", "relu"), solver: r.PickS("sgd", "sgd", "adam"),
		lr: r.PickS("constant", "constant", "invscaling", "adaptive"), alpha: r.PickF(0, 1e-4, 0.1, 1), lrInit: r.PickF(0.001, 0.01, 0.05), power: r.PickF(0.5, 0.25, 1), tol: r.PickF(1e-4, 1e-4, 0.01, 0.2),
		maxIter: 1 + r.Intn(8), patience: r.PickI(1, 2, 10), shuffle: r.Bool(), nesterov: r.Bool(), momentum: r.PickF(0, 0.5, 0.9), decay: r.PickF(0, 0, 0, 0.01),
		warm: r.Chance(4), beta1: r.PickF(0.9, 0.5, 0), beta2: r.PickF(0.999, 0.9), eps: r.PickF(1e-8, 1e-4), valid: r.PickF(0.25, 0.5)}
	for k := r.Intn(3); k > 0; k-- {
		t.hidden = append(t.hidden, 1+r.Intn(5))
	}
	tol := 1e-6
	if t.kind == "classes" {
		t.single = false
	}
	if t.lr == "adaptive" { // often enough to see the rate go down and training stop
		t.tol, t.patience = r.PickF(1e-4, 0.01, 0.2, 5), r.PickI(1, 1, 2)
		t.maxIter += r.Intn(8)
		if r.Chance(4) {
			t.lrInit = 4e-6
		}
	}
	if t.single {
		tol = 5e-3
		t.eps = 1e-2
		if t.act == "relu" { // a kink moved by single precision
			t.act = "tanh"
		}
		if t.lrInit > 0.01 {
			t.lrInit = 0.01
		}
		t.momentum = r.PickF(0, 0.5)
	}
	n, f := 4+r.Intn(16), 1+r.Intn(4)
	if r.Chance(100) {
		n = 190 + r.Intn(250)
	}
	switch r.Intn(4) {
	case 0:
		t.batch = n + r.Intn(2)
	case 1:
		t.batch = 0
	case 2: // a divisor
		for t.batch = 1 + r.Intn(n); n%t.batch != 0; t.batch-- {
		}
	default:
		t.batch = 1 + r.Intn(n)
	}
	t.early = r.Chance(4) && !t.shuffle && !t.warm && t.kind != "classes" && n >= 8
	var d *Data
	switch t.kind {
	case "regressor":
		d = RegData(r, n, f, 1+r.Intn(3), 1)
	case "binary":
		d = ClsData(r, n, f, 2, 1, 1, []float64{0, 1})
	default:
		d = ClsData(r, n, f, 3, 1, 1, []float64{0, 1, 2})
		if r.Bool() && t.kind == "classes" {
			d = ClsData(r, n, f, 3, 1, 1, []float64{-1, 2, 5.5})
		}
	}
	if t.kind == "onehot" {
		Y := mat.NewDense(n, 3, nil)
		for i := 0; i < n; i++ {
			Y.Set(i, int(d.Y.At(i, 0)), 1)
		}
		d.Y, d.O = Y, 3
	}
	d.as(c.R.PickS("", "", formNames[0], formNames[len(formNames)-1]))
	seed := r.Seed()
	c.Desc("%s, %s", t, d)
	// the parameters before the first step: those of a fit whose steps are too small to matter
	var init *fitted
	c.Ref("initial parameters", func() {
		t0 := *t
		t0.maxIter, t0.lrInit, t0.decay, t0.early, t0.momentum, t0.alpha = 1, 1e-300, 0, false, 0, 0
		if t.single {
			t0.lrInit = 1e-40
		}
		m := t0.model(&recSource{r: NewRng(seed)})
		fitNet(m, d.mX(), d.mY())
		init = observe(m)
	})
	twins := 1 + r.Intn(2)
	got, mid := make([]*fitted, twins), make([]*fitted, twins)
	srcs := make([]*recSource, twins)
	first := make([]int, twins)
	c.Sim("fit", func() {
		par(twins, func(k int) {
			srcs[k] = &recSource{r: NewRng(seed)}
			m := t.model(srcs[k])
			fitNet(m, d.mX(), d.mY())
			if t.warm {
				mid[k] = observe(m)
				first[k] = len(srcs[k].shuf)
				warmNet(m)
				fitNet(m, d.mX(), d.mY())
			}
			got[k] = observe(m)
		})
	})
	T := target(d, len(init.bias[len(init.bias)-1]), t.kind != "regressor")
	want := map[string]string{"regressor": "identity", "binary": "logistic"}[t.kind]
	if want == "" {
		want = "softmax"
	}
	if T == nil || len(init.bias[len(init.bias)-1]) < 2 && want == "softmax" { // not enough classes in the data
		return
	}
	if t.kind == "binary" && sumAll(T) == 0 {
		c.Probe("one class only")
	}
	c.Probe("solver " + t.solver)
	for k, g := range got {
		what := fmt.Sprintf("%s on %s", t, d)
		c.Check(strings.EqualFold(g.out, want), "wrong-network", "%s: the output activation is %s", what, g.out)
		jolt := 0.0
		run := func(stale, perParam bool) (*refNet, string) {
			e := netOf(t, init)
			e.stale, e.perParam = stale, perParam
			e.each(func(_ int, p *float64) { *p += jolt })
			sh := srcs[k].shuf
			if t.warm {
				sh = sh[:first[k]]
			}
			if t.shuffle && len(sh) < t.maxIter {
				if it := g.iters; t.warm {
					it = mid[k].iters
					if len(sh) != it {
						return nil, ""
					}
				} else if len(sh) != it {
					return nil, ""
				}
				// stopped early: as many shuffles as epochs, pad
				sh = append(append([][][2]int{}, sh...), make([][][2]int, t.maxIter)...)
			}
			e.fit(d.X, T, sh)
			if t.warm {
				sh = srcs[k].shuf[first[k]:]
				if t.shuffle && len(sh) < t.maxIter {
					sh = append(append([][][2]int{}, sh...), make([][][2]int, t.maxIter)...)
				}
				e.fit(d.X, T, sh)
			}
			return e, e.differs(g, tol)
		}
		e, diff := run(false, false)
		if e == nil {
			c.Probe("shuffles not seen")
			continue
		}
		if e.border || diverged(e) || diverged2(g) {
			c.Probe("too close to call")
			continue
		}
		if diff == "" {
			c.Probe("as prescribed")
			c.st.Checks++
			continue
		}
		// the same, with what is a known finding
		known := ""
		for v := 1; v < 4 && known == ""; v++ {
			stale, pp := v&1 > 0, v&2 > 0
			batch := t.batch
			if batch <= 0 {
				batch = min(n, 200)
			}
			if stale && n%batch == 0 && !t.early || pp && t.solver != "adam" {
				continue
			}
			e, df := run(stale, pp)
			diff += fmt.Sprintf(" (variant %d: %s)", v, df)
			if e.border {
				known = "border"
			}
			if df == "" {
				known = "ok"
				if stale {
					c.Known("C29/short-batch", "not-as-prescribed", "%s: the short last batch of an epoch is mixed with rows of the batch before it: %s", what, diff)
				}
				if pp {
					c.Known("C29/adam-powers", "not-as-prescribed", "%s: the powers of beta advance with every parameter instead of every step: %s", what, diff)
				}
			}
		}
		if known == "" && chaotic(e, func() *refNet {
			jolt = tol / 1e4
			defer func() { jolt = 0 }()
			e, _ := run(false, t.solver == "adam")
			return e
		}, tol) {
			c.Probe("rounding decides")
			continue
		}
		c.Check(known != "", "not-as-prescribed", "%s: training does not take the steps its solver prescribes: %s", what, diff)
	}
}

func sumAll(m *mat.Dense) float64 { return mat.Sum(m) }

func diverged(n *refNet) bool {
	for _, v := range n.curve {
		if math.IsNaN(v) || math.Abs(v) > 1e6 {
			return true
		}
	}
	for _, v := range n.params() {
		if math.IsNaN(v) || math.Abs(v) > 1e6 {
			return true
		}
	}
	return false
}

// chaotic tells whether a tiny change of the initial parameters grows beyond the tolerance.
func chaotic(e *refNet, other func() *refNet, tol float64) bool {
	o := other()
	if o == nil || len(o.curve) != len(e.curve) {
		return true
	}
	a, b := e.params(), o.params()
	for i := range a {
		if !sameF(a[i], b[i], tol/10) {
			return true
		}
	}
	return false
}

func diverged2(f *fitted) bool {
	return math.IsNaN(f.loss) || math.Abs(f.loss) > 1e6
}

// differs compares a trained network with the reference.
func (n *refNet) differs(f *fitted, tol float64) string {
	if f.iters != n.iters {
		return fmt.Sprintf("%d epochs instead of %d", f.iters, n.iters)
	}
	for l := range n.w {
		if s := diffMat(n.w[l], f.coefs[l], tol); s != "" {
			return fmt.Sprintf("coefficients of layer %d: %s", l, s)
		}
		for j := range n.b[l] {
			if !sameF(n.b[l][j], f.bias[l][j], tol) {
				return fmt.Sprintf("intercept %d of layer %d is %g instead of %g", j, l, f.bias[l][j], n.b[l][j])
			}
		}
	}
	if n.t.early { // the loss is reported per row of all rows, validation rows included
		return ""
	}
	if len(f.curve) != len(n.curve) {
		return fmt.Sprintf("%d losses instead of %d", len(f.curve), len(n.curve))
	}
	for i := range n.curve {
		if !sameF(n.curve[i], f.curve[i], tol) {
			return fmt.Sprintf("loss of epoch %d is %g instead of %g", i, f.curve[i], n.curve[i])
		}
	}
	return ""
}
