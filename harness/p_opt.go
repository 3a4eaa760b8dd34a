//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"verifsim"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

func init() {
	register("C22", &Scenario{Name: "networks", Weight: 4, Race: true, F: c22networks},
		&Scenario{Name: "linfit", Weight: 2, F: c22linfit})
}

// ---------------------------------------------------------------- C22

// fitted is what a trained network exposes.
type fitted struct {
	coefs            []*mat.Dense
	bias             [][]float64
	act, out, lossFn string
	solver           string
	alpha            float64
	loss, best       float64
	curve            []float64
	iters, maxIter   int
	plain            bool // the loss is the loss of the exposed parameters (no decay, no batch norm)
	validation       []float64
	bestValidation   float64
	tol              float64
}

func f64(v []float32) []float64 {
	out := make([]float64, len(v))
	for i, x := range v {
		out[i] = float64(x)
	}
	return out
}

func observe(m interface{}) *fitted {
	switch m := m.(type) {
	case *lm.LogisticRegression:
		f := &fitted{act: "identity", out: m.OutActivation, lossFn: m.LossFuncName, solver: "lbfgs", alpha: m.Alpha, loss: m.Loss, best: m.BestLoss, curve: append([]float64(nil), m.LossCurve...), iters: m.NIter, maxIter: m.MaxIter, plain: true, tol: 1e-9}
		c := m.Coef
		w := mat.NewDense(c.Rows, c.Cols, nil)
		w.Apply(func(i, j int, _ float64) float64 { return c.Data[i*c.Stride+j] }, w)
		f.coefs, f.bias = []*mat.Dense{w}, [][]float64{append([]float64(nil), m.Intercept...)}
		return f
	case *nn.MLPRegressor:
		return observe(&m.BaseMultilayerPerceptron64)
	case *nn.MLPClassifier:
		return observe(&m.BaseMultilayerPerceptron64)
	case *nn.BaseMultilayerPerceptron64:
		f := &fitted{act: m.Activation, out: m.OutActivation, lossFn: m.LossFuncName, solver: m.Solver, alpha: m.Alpha, loss: m.Loss, best: m.BestLoss, curve: append([]float64(nil), m.LossCurve...), iters: m.NIter, maxIter: m.MaxIter, plain: !m.BatchNormalize && m.WeightDecay == 0, tol: 1e-9, bestValidation: m.BestValidationScore}
		f.validation = append(f.validation, m.ValidationScores...)
		for i := range m.Coefs {
			c := m.Coefs[i]
			w := mat.NewDense(c.Rows, c.Cols, nil)
			w.Apply(func(i, j int, _ float64) float64 { return c.Data[i*c.Stride+j] }, w)
			f.coefs, f.bias = append(f.coefs, w), append(f.bias, append([]float64(nil), m.Intercepts[i]...))
		}
		return f
	case *nn.BaseMultilayerPerceptron32:
		f := &fitted{act: m.Activation, out: m.OutActivation, lossFn: m.LossFuncName, solver: m.Solver, alpha: float64(m.Alpha), loss: float64(m.Loss), best: float64(m.BestLoss), curve: f64(m.LossCurve), iters: m.NIter, maxIter: m.MaxIter, plain: !m.BatchNormalize && m.WeightDecay == 0, tol: 2e-4, bestValidation: float64(m.BestValidationScore), validation: f64(m.ValidationScores)}
		for i := range m.Coefs {
			c := m.Coefs[i]
			w := mat.NewDense(c.Rows, c.Cols, nil)
			w.Apply(func(i, j int, _ float64) float64 { return float64(c.Data[i*c.Stride+j]) }, w)
			f.coefs, f.bias = append(f.coefs, w), append(f.bias, f64(m.Intercepts[i]))
		}
		return f
	}
	return nil
}

// target is what the network is trained towards.
func target(d *Data, outputs int, classifier bool) *mat.Dense {
	n, o := d.Y.Dims()
	set := map[float64]bool{}
	binary := true
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			v := d.Y.At(i, j)
			set[v] = true
			binary = binary && (v == 0 || v == 1)
		}
	}
	if !classifier || binary {
		return d.Y
	}
	if o != 1 {
		return nil
	}
	var cl []float64
	for v := range set {
		cl = append(cl, v)
	}
	sort.Float64s(cl)
	T := mat.NewDense(n, outputs, nil)
	for i := 0; i < n; i++ {
		k := sort.SearchFloat64s(cl, d.Y.At(i, 0))
		if outputs == len(cl) {
			T.Set(i, k, 1)
		} else if outputs == 1 && len(cl) == 2 {
			T.Set(i, 0, float64(k))
		} else {
			return nil
		}
	}
	return T
}

func activate(name string, h *mat.Dense) bool {
	n, o := h.Dims()
	switch strings.ToLower(name) {
	case "identity":
	case "logistic":
		h.Apply(func(_, _ int, v float64) float64 { return 1 / (1 + math.Exp(-v)) }, h)
	case "tanh":
		h.Apply(func(_, _ int, v float64) float64 { return math.Tanh(v) }, h)
	case "relu":
		h.Apply(func(_, _ int, v float64) float64 { return math.Max(0, v) }, h)
	case "softmax":
		for i := 0; i < n; i++ {
			s, mx := 0.0, math.Inf(-1)
			for j := 0; j < o; j++ {
				mx = math.Max(mx, h.At(i, j))
			}
			for j := 0; j < o; j++ {
				s += math.Exp(h.At(i, j) - mx)
			}
			for j := 0; j < o; j++ {
				h.Set(i, j, math.Exp(h.At(i, j)-mx)/s)
			}
		}
	default:
		return false
	}
	return true
}

// lossOf evaluates the training objective at the exposed parameters.
func (f *fitted) lossOf(X, T *mat.Dense) (float64, bool) {
	n, o := T.Dims()
	h := mat.DenseCopyOf(X)
	sq := 0.0
	for l, w := range f.coefs {
		var z mat.Dense
		mulInto(&z, h, w)
		z.Apply(func(_, j int, v float64) float64 { return v + f.bias[l][j] }, &z)
		h = &z
		a := f.act
		if l == len(f.coefs)-1 {
			a = f.out
		}
		if !activate(a, h) {
			return 0, false
		}
		w.Apply(func(_, _ int, v float64) float64 { sq += v * v; return v }, w)
	}
	if _, ho := h.Dims(); ho != o {
		return 0, false
	}
	sum := 0.0
	clip := func(p float64) (float64, bool) { return p, p > 1e-12 && p < 1-1e-12 }
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			p, t := h.At(i, j), T.At(i, j)
			switch strings.ToLower(f.lossFn) {
			case "square_loss":
				sum += (p - t) * (p - t) / 2
			case "log_loss":
				q, ok := clip(p)
				if !ok { // clipping near 0 and 1 is the implementation's own affair
					return 0, false
				}
				if strings.EqualFold(f.out, "logistic") {
					sum -= t*math.Log(q) + (1-t)*math.Log1p(-q)
				} else {
					sum -= t * math.Log(q)
				}
			default:
				return 0, false
			}
		}
	}
	return sum/float64(n) + f.alpha/2*sq/float64(n), true
}

func c22networks(c *C) {
	r := c.R
	in := c.inst(func(s *Subject) bool {
		switch s.Name {
		case "LogisticRegression", "MLPRegressor", "MLPClassifier", "MLP64", "MLP32":
			return true
		}
		return false
	})
	k := 1
	if r.Chance(3) {
		k = 2
	}
	ds := make([]*Data, k)
	ms := make([]interface{}, k)
	for i := range ds {
		ds[i] = in.Data(r)
		c.Desc("data %s", ds[i])
	}
	nj := c.njobs()
	c.Sim("fit", func() {
		par(k, func(i int) {
			ms[i] = in.New(nj)
			in.Fit(ms[i], ds[i])
		})
	})
	for i, m := range ms {
		d := ds[i]
		f := observe(m)
		what := fmt.Sprintf("%s (%s) on %s", in.Name, in.Desc, d)
		c.Probe("solver " + f.solver)
		c.Check(len(f.curve) > 0, "no-history", "%s: the loss history is empty", what)
		lo := math.Inf(1)
		for _, v := range f.curve {
			lo = math.Min(lo, v)
		}
		if math.IsNaN(lo) { // diverged (batch normalisation of a dead unit): no smallest loss
			c.Probe("loss not a number")
			continue
		}
		c.Check(sameF(lo, f.best, 1e-12), "wrong-best", "%s: BestLoss is %g, the smallest loss of the history is %g", what, f.best, lo)
		if f.solver != "lbfgs" {
			c.Check(len(f.curve) == f.iters, "history-length", "%s: %d iterations but %d losses in the history", what, f.iters, len(f.curve))
			c.Check(f.iters <= f.maxIter, "history-length", "%s: %d iterations, MaxIter is %d", what, f.iters, f.maxIter)
			c.Check(f.curve[len(f.curve)-1] == f.loss, "wrong-loss", "%s: Loss is %g, the last of the history is %g", what, f.loss, f.curve[len(f.curve)-1])
			if len(f.validation) > 0 {
				c.Probe("early stopping")
				c.Check(len(f.validation) == f.iters, "history-length", "%s: %d iterations but %d validation scores", what, f.iters, len(f.validation))
				hi := math.Inf(-1)
				for _, v := range f.validation {
					hi = math.Max(hi, v)
				}
				c.Check(f.bestValidation == hi, "wrong-best", "%s: BestValidationScore is %g, the largest of the history is %g", what, f.bestValidation, hi)
			}
			continue
		}
		c.Check(f.loss <= f.curve[0], "worse-than-start", "%s: Loss is %g, it was %g at the start", what, f.loss, f.curve[0])
		found := false
		for _, v := range f.curve {
			found = found || sameF(v, f.loss, 1e-12)
		}
		c.Check(found, "wrong-loss", "%s: Loss %g was never evaluated (history %v)", what, f.loss, f.curve)
		if !f.plain {
			continue
		}
		T := target(d, len(f.bias[len(f.bias)-1]), f.lossFn != "square_loss")
		if T == nil {
			continue
		}
		if L, ok := f.lossOf(d.X, T); ok {
			c.Probe("loss recomputed")
			c.Check(math.Abs(L-f.loss) <= f.tol*(1+math.Abs(L)), "loss-of-other-parameters", "%s: the model reports a loss of %.15g, but its parameters have a loss of %.15g", what, f.loss, L)
		}
	}
}

// evaluation of the loss, seen by the function passed in
type lossEval struct {
	theta []float64
	J     float64
	grad  bool
}

// keeper notes what an optimisation says it did.
type keeper struct {
	seen []lossEval
	ops  []optimize.Operation
}

func (k *keeper) Init() error { return nil }
func (k *keeper) Record(loc *optimize.Location, op optimize.Operation, st *optimize.Stats) error {
	k.seen, k.ops = append(k.seen, lossEval{append([]float64(nil), loc.X...), loc.F, false}), append(k.ops, op)
	return nil
}

// c22linfit passes its own loss function to LinFit and compares what was evaluated with what is reported.
func c22linfit(c *C) {
	r := c.R
	d := RegData(r, 6+r.Intn(20), 1+r.Intn(3), 1+r.Intn(3), 2)
	alpha, l1 := r.PickF(0, 0.01, 0.5), r.PickF(0, 0, 0.5, 1)
	epochs := 5 + r.Intn(40)
	var method func() optimize.Method
	name := r.PickS("LBFGS", "BFGS", "CG", "NelderMead", "sgd", "adam", "adagrad")
	switch name {
	case "LBFGS":
		method = func() optimize.Method { return &optimize.LBFGS{} }
	case "BFGS":
		method = func() optimize.Method { return &optimize.BFGS{} }
	case "CG":
		method = func() optimize.Method { return &optimize.CG{} }
	case "NelderMead":
		method = func() optimize.Method { return &optimize.NelderMead{} }
	}
	c.Desc("data %s alpha=%g l1=%g epochs=%d %s", d, alpha, l1, epochs, name)
	c.Probe("method " + name)
	var mu verifsim.Mutex
	var evals []lossEval
	rec := func(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L1Ratio float64, nSamples int, activation lm.Activation, dis bool) float64 {
		J := lm.SquareLoss(Ytrue, X, Theta, Ypred, Ydiff, grad, Alpha, L1Ratio, nSamples, activation, dis)
		n, _ := Ytrue.Dims()
		if n == d.N { // not a mini batch
			mu.Lock()
			evals = append(evals, lossEval{append([]float64(nil), mat.DenseCopyOf(Theta).RawMatrix().Data...), J, grad != nil})
			mu.Unlock()
		}
		return J
	}
	per := r.Bool()
	var res *lm.LinFitResult
	var kept *keeper
	if r.Bool() && (method == nil || !per) { // several optimisations at the same time would share it
		kept = &keeper{}
	}
	X, Y := cp(d.X), cp(d.Y)
	c.Late = func() interface{} { return res }
	c.Sim("LinFit", func() {
		o := &lm.LinFitOptions{Epochs: epochs, Alpha: alpha, L1Ratio: l1, Loss: rec, GOMethodCreator: method, PerOutputFit: per, MiniBatchSize: 1 + d.N/3}
		if kept != nil {
			o.Recorder = kept
		}
		if method == nil {
			o.Solver = name
			res = lm.LinFit(X, Y, o)
		} else if per {
			res = lm.LinFit(X, Y, o)
		} else {
			res = lm.LinFitGOM(X, Y, o)
		}
	})
	rows, cols := res.Theta.Dims()
	c.Check(rows == d.F && cols == d.O, "wrong-shape", "Theta is %d x %d for %d features and %d outputs", rows, cols, d.F, d.O)
	loss := func(Y *mat.Dense, T *mat.Dense) float64 {
		_, o := Y.Dims()
		return lm.SquareLoss(Y, d.X, T, mat.NewDense(d.N, o, nil), mat.NewDense(d.N, o, nil), nil, alpha, l1, d.N, base.Identity{}, false)
	}
	isIn := func(t []float64, evals []lossEval) (float64, bool) {
		for _, e := range evals {
			if len(e.theta) != len(t) {
				continue
			}
			same := true
			for i := range t {
				same = same && t[i] == e.theta[i]
			}
			if same {
				return e.J, true
			}
		}
		return 0, false
	}
	if kept != nil {
		c.Probe("with a recorder")
		for i, k := range kept.seen {
			if i == 0 && method == nil || method != nil && kept.ops[i] != optimize.MajorIteration {
				continue
			}
			J, ok := isIn(k.theta, evals)
			c.Check(ok, "parameters-never-evaluated", "%s: record %d (%v) is of parameters %v, which were never evaluated", name, i, kept.ops[i], k.theta)
			c.Check(J == k.J, "loss-of-other-parameters", "%s: record %d (%v) gives the loss %g for parameters evaluated to %g", name, i, kept.ops[i], k.J, J)
		}
		if method == nil {
			c.Check(len(kept.seen) == len(evals)+1, "wrong-count", "%s: %d records of %d epochs", name, len(kept.seen), len(evals))
		} else {
			c.Check(len(kept.seen) > 0, "wrong-count", "%s: nothing was recorded", name)
		}
	}
	if method == nil {
		t := mat.DenseCopyOf(res.Theta).RawMatrix().Data
		J, ok := isIn(t, evals)
		c.Check(ok, "parameters-never-evaluated", "%s: the returned parameters %v were never evaluated", name, t)
		c.Check(J == res.J, "loss-of-other-parameters", "%s: J=%g is reported for parameters evaluated to %g", name, res.J, J)
		for _, e := range evals {
			c.Check(!(e.J < res.J), "wrong-best", "%s: J=%g is reported, but %g was reached", name, res.J, e.J)
		}
		return
	}
	funcs := 0
	for _, e := range evals {
		if !e.grad {
			funcs++
		}
	}
	if !per {
		funcs-- // one more evaluation after the optimisation
	}
	c.Check(res.Epoch == funcs, "wrong-count", "%s: %d evaluations are reported, %d were made", name, res.Epoch, funcs)
	if per {
		for o := 0; o < d.O; o++ {
			t := mat.Col(nil, o, res.Theta)
			J, ok := isIn(t, evals)
			c.Check(ok, "parameters-never-evaluated", "%s: the returned parameters %v of output %d were never evaluated", name, t, o)
			if d.O == 1 {
				c.judgeOptimum(name, alpha == 0 || l1 == 0, J, evals)
			}
			y := mat.NewDense(d.N, 1, mat.Col(nil, o, d.Y))
			J0, J1 := loss(y, mat.NewDense(d.F, 1, nil)), loss(y, mat.NewDense(d.F, 1, t))
			c.Check(J1 <= J0*(1+0.2)+1, "worse-than-start", "%s: the loss of output %d is %g, all-zero parameters have %g", name, o, J1, J0)
		}
	} else {
		t := mat.DenseCopyOf(res.Theta).RawMatrix().Data
		J, ok := isIn(t, evals[:len(evals)-1])
		c.Check(ok, "parameters-never-evaluated", "%s: the returned parameters %v were never evaluated", name, t)
		c.judgeOptimum(name, alpha == 0 || l1 == 0, J, evals[:len(evals)-1])
	}
}

// judgeOptimum: the parameters returned are the best ones a whole iteration ended with; the search
// along the last line may have seen better ones.
func (c *C) judgeOptimum(name string, smooth bool, J float64, evals []lossEval) {
	first, best := evals[0].J, math.Inf(1)
	for _, e := range evals {
		best = math.Min(best, e.J)
	}
	c.Check(J <= first, "worse-than-start", "%s: the loss of the returned parameters is %g, that of the first ones evaluated %g", name, J, first)
	if !smooth || len(evals) < 20 || name == "NelderMead" && len(evals) < 6*len(evals[0].theta) {
		return
	}
	c.Check(J-best <= 0.5*(first-best), "optimum-lost", "%s: the loss of the returned parameters is %g, that of the first ones evaluated %g and of the best of %d %g", name, J, first, len(evals), best)
}
