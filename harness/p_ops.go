//go:build go1.21

package main

import (
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/neighbors"
	pp "github.com/pa-m/sklearn/preprocessing"

	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// OpInst is a call of a library function with drawn arguments. Call may be made any number of
// times; each time it uses a fresh random state in the same initial state.
type OpInst struct {
	Name    string
	Desc    string
	Watched []*mat.Dense
	Call    func(nj int) []Leaf
	Tol     float64
	Random  bool // draws random numbers from the process-wide generator
}

// Op is a family of such calls.
type Op struct {
	Name   string
	Weight int
	Draw   func(r *Rng) *OpInst
}

var ops []*Op

func op(name string, w int, draw func(r *Rng) *OpInst) {
	ops = append(ops, &Op{name, w, draw})
}

func (c *C) op() *OpInst {
	var order []*Op
	for _, o := range ops {
		if onlySubject != "" && o.Name != onlySubject {
			continue
		}
		for i := 0; i < o.Weight; i++ {
			order = append(order, o)
		}
	}
	if len(order) == 0 {
		order = ops
	}
	o := order[c.R.Intn(len(order))]
	in := o.Draw(c.R)
	in.Name = o.Name
	c.Desc("%s %s", in.Name, in.Desc)
	c.Probe("operation " + in.Name)
	return in
}

func negSSE(Yt, Yp mat.Matrix) float64 {
	s := 0.0
	n, o := Yt.Dims()
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			e := Yt.At(i, j) - Yp.At(i, j)
			s -= e * e
		}
	}
	return s
}

func init() {
	op("PreprocessData", 2, func(r *Rng) *OpInst {
		n, f, o := 2+r.Intn(20), 1+r.Intn(8), 1+r.Intn(6)
		d := RegData(r, n, f, o, 3)
		fi, no := r.Chance(4) == false, r.Bool()
		X, Y := d.X, d.Y
		if r.Chance(3) {
			X = strided(X)
		}
		if r.Chance(4) {
			Y = strided(Y)
		}
		if r.Chance(4) { // a constant column
			j := r.Intn(f)
			for i := 0; i < n; i++ {
				X.Set(i, j, 2.5)
			}
		}
		return &OpInst{Desc: fmt.Sprintf("%dx%d->%d intercept=%v normalize=%v", n, f, o, fi, no), Watched: []*mat.Dense{X, Y},
			Call: func(nj int) (out []Leaf) {
				a, b, cc, dd, e := lm.PreprocessData(X, Y, fi, no, nil)
				for i, m := range []*mat.Dense{a, b, cc, dd, e} {
					out = append(out, leaves(fmt.Sprintf("result%d", i), m)...)
				}
				return
			}}
	})
	op("EnetPath", 2, func(r *Rng) *OpInst {
		n, f, o := 4+r.Intn(12), 1+r.Intn(4), 1+r.Intn(2)*r.Intn(3)
		d := RegData(r, n, f, o, 3)
		na := 1 + r.Intn(8)
		var al *[]float64
		if na == 1 || r.Bool() {
			a := make([]float64, na)
			for i := range a {
				a[i] = math.Pow(10, 2-4*r.Float())
			}
			al = &a
		}
		l1 := r.PickF(0.3, 0.5, 0.9, 1)
		pos := r.Bool() && o == 1
		return &OpInst{Desc: fmt.Sprintf("%dx%d->%d alphas=%d given=%v l1=%g positive=%v", n, f, o, na, al != nil, l1, pos), Watched: []*mat.Dense{d.X, d.Y},
			Call: func(nj int) []Leaf {
				alphas, coefs, gaps, iters := lm.EnetPath(d.X, d.Y, l1, 1e-3, na, al, false, pos)
				return append(append(leaves("alphas", alphas), leaves("coefs", coefs)...), append(leaves("gaps", gaps), leaves("iters", iters)...)...)
			}}
	})
	op("MakeBlobs", 2, func(r *Rng) *OpInst {
		n, f := 1+r.Intn(40), 1+r.Intn(4)
		k := 1 + r.Intn(5)
		var C *mat.Dense
		if r.Bool() {
			C = normMat(r, k, f, 5)
		}
		std := r.PickF(0, 0.5, 2)
		shuf := r.Bool()
		name, src := newSource(r)
		var w []*mat.Dense
		if C != nil {
			w = append(w, C)
		}
		return &OpInst{Desc: fmt.Sprintf("%dx%d centers=%d given=%v std=%g shuffle=%v source=%s", n, f, k, C != nil, std, shuf, name), Watched: w,
			Call: func(nj int) []Leaf {
				cfg := &datasets.MakeBlobsConfig{NSamples: n, NFeatures: f, Centers: k, ClusterStd: std, Shuffle: shuf, RandomState: src()}
				if C != nil {
					cfg.Centers = C
				} else if k == 3 {
					cfg.Centers = nil
				}
				X, Y := datasets.MakeBlobs(cfg)
				return append(leaves("X", X), leaves("Y", Y)...)
			}}
	})
	op("MakeRegression", 1, func(r *Rng) *OpInst {
		n, f, inf, t := 1+r.Intn(20), 1+r.Intn(6), 1+r.Intn(6), 1+r.Intn(3)
		seed := r.Seed()
		return &OpInst{Desc: fmt.Sprintf("%dx%d informative=%d targets=%d", n, f, inf, t),
			Call: func(nj int) []Leaf {
				X, Y, C := datasets.MakeRegression(map[string]interface{}{"n_samples": n, "n_features": f, "n_informative": inf, "n_targets": t, "bias": 1.5, "random_state": xrand.New(xrand.NewSource(seed))})
				return append(append(leaves("X", X), leaves("Y", Y)...), leaves("C", C)...)
			}}
	})
	op("column statistics", 2, func(r *Rng) *OpInst {
		n, f := 2+r.Intn(20), 1+r.Intn(20)
		X := normMat(r, n, f, 2)
		if r.Bool() {
			X = strided(X)
		}
		return &OpInst{Desc: fmt.Sprintf("%dx%d", n, f), Watched: []*mat.Dense{X},
			Call: func(nj int) []Leaf {
				m, s := pp.MeanStdDev(X)
				np := pp.NumpyLike{}
				out := append(append(leaves("mean", m), leaves("std", s)...), leaves("Mean", pp.Mean(X))...)
				out = append(append(out, leaves("var", np.Var(X))...), leaves("nstd", np.Std(X))...)
				return append(append(out, leaves("scale", pp.Scale(X))...), leaves("dmean", pp.DenseMean(nil, X))...)
			}}
	})
	op("CrossValidate", 4, func(r *Rng) *OpInst {
		in := drawSubject(r, func(s *Subject) bool {
			switch s.Name {
			case "LinearRegression", "Lasso", "ElasticNet", "MultiTaskElasticNet", "BayesianRidge", "KNeighborsRegressor", "SVR", "MLPRegressor", "SGDRegressor", "Pipeline":
				return true
			}
			return false
		})
		o := 1
		if in.Name != "BayesianRidge" {
			o = 1 + r.Intn(2)
		}
		n, f := 18+r.Intn(8), 1+r.Intn(3)
		if in.Name == "MLPRegressor" {
			n += 20
		}
		d := RegData(r, n, f, o, 3)
		ns := 2 + r.Intn(3)
		shuf := r.Bool()
		seed := r.Seed()
		return &OpInst{Desc: fmt.Sprintf("%s %s %dx%d->%d splits=%d shuffle=%v", in.Name, in.Desc, n, f, o, ns, shuf), Watched: []*mat.Dense{d.X, d.Y}, Tol: in.Tol,
			Call: func(nj int) []Leaf {
				res := ms.CrossValidate(in.New(1).(base.Predicter), d.X, d.Y, nil, negSSE, &ms.KFold{NSplits: ns, Shuffle: shuf, RandomState: base.NewLockedSource(seed)}, nj)
				out := leaves("TestScore", res.TestScore)
				for i, e := range res.Estimator {
					l := Dump(e, in.Skip...)
					for k := range l {
						l[k].Path = fmt.Sprintf("estimator %d", i) + l[k].Path
					}
					out = append(out, l...)
				}
				return out
			}}
	})
	op("KFold", 2, func(r *Rng) *OpInst {
		n, k := 1+r.Intn(20), r.PickI(0, 1, 2, 3, 5, 8, 13)
		shuf := r.Bool()
		seed := r.Seed()
		X, Y := idData(r, n, 2, 1)
		return &OpInst{Desc: fmt.Sprintf("n=%d splits=%d shuffle=%v", n, k, shuf), Watched: []*mat.Dense{X, Y},
			Call: func(nj int) []Leaf {
				return leaves("splits", drain((&ms.KFold{NSplits: k, Shuffle: shuf, RandomState: base.NewLockedSource(seed)}).Split(X, Y)))
			}}
	})
	op("TrainTestSplit", 1, func(r *Rng) *OpInst {
		n, f, o := 4+r.Intn(20), 1+r.Intn(4), 1+r.Intn(2)
		d := RegData(r, n, f, o, 3)
		ts := r.PickF(0.2, 0.5, 0.25)
		seed := r.Seed()
		return &OpInst{Desc: fmt.Sprintf("%dx%d test=%g", n, f, ts), Watched: []*mat.Dense{d.X, d.Y},
			Call: func(nj int) []Leaf {
				a, b, cc, dd := ms.TrainTestSplit(d.X, d.Y, ts, seed)
				return append(append(leaves("a", a), leaves("b", b)...), append(leaves("c", cc), leaves("d", dd)...)...)
			}}
	})
	op("KDTree", 3, func(r *Rng) *OpInst {
		X, Q := cloud(r, 1+r.Intn(40), 1+r.Intn(4), 1+r.Intn(20))
		n, f := X.Dims()
		k := 1 + r.Intn(n)
		leaf := r.PickI(1, 1, 2, 5, 30)
		p := r.PickF(1, 2, 3, math.Inf(1))
		return &OpInst{Desc: fmt.Sprintf("%dx%d k=%d leaf=%d p=%g", n, f, k, leaf, p), Watched: []*mat.Dense{X, Q},
			Call: func(nj int) []Leaf {
				t := neighbors.NewKDTree(X, leaf)
				a, b := t.Query(Q, k, 0, p, math.Inf(1))
				return append(leaves("dist", a), leaves("ind", b)...)
			}}
	})
	op("LinFit", 1, func(r *Rng) *OpInst {
		n, f, o := 4+r.Intn(12), 1+r.Intn(3), 1+r.Intn(4)
		d := RegData(r, n, f, o, 3)
		ep := 2 + r.Intn(8)
		solver := r.PickS("", "", "sgd", "adam", "adagrad", "rmsprop", "adadelta")
		bs := r.PickI(0, 3)
		return &OpInst{Desc: fmt.Sprintf("%dx%d->%d solver=%s epochs=%d batch=%d", n, f, o, solver, ep, bs), Watched: []*mat.Dense{d.X, d.Y}, Random: true,
			Call: func(nj int) []Leaf {
				res := lm.LinFit(d.X, d.Y, &lm.LinFitOptions{Epochs: ep, MiniBatchSize: bs, Solver: solver, Loss: lm.SquareLoss, Activation: base.Identity{},
					ThetaInitializer: func(Theta *mat.Dense) {
						Theta.Apply(func(i, j int, v float64) float64 { return 0.01 * float64(i+2*j) }, Theta)
					}})
				return leaves("theta", res.Theta)
			}}
	})
	op("metrics", 2, func(r *Rng) *OpInst {
		n, k := 6+r.Intn(20), 2+r.Intn(4)
		ls := labelSets[r.Intn(len(labelSets))]
		lab := append(append([]float64{}, ls...), 11)
		yt, yp := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
		bt, bs := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ {
			yt.Set(i, 0, lab[i%k])
			yp.Set(i, 0, lab[r.Intn(k)])
			bt.Set(i, 0, float64(i%2))
			bs.Set(i, 0, math.Floor(r.Float()*8)/8)
		}
		avg := r.PickS("macro", "micro", "weighted")
		return &OpInst{Desc: fmt.Sprintf("n=%d classes=%d average=%s", n, k, avg), Watched: []*mat.Dense{yt, yp, bt, bs},
			Call: func(nj int) []Leaf {
				p, rc, f, s := metrics.PrecisionRecallFScoreSupport(yt, yp, 1, nil, -1, avg, nil, nil)
				out := leaves("prfs", []float64{p, rc, f, s, metrics.AccuracyScore(yt, yp, true, nil), metrics.ROCAUCScore(bt, bs, avg, nil), metrics.AveragePrecisionScore(bt, bs, avg, nil)})
				out = append(out, leaves("cm", metrics.ConfusionMatrix(yt, yp, nil))...)
				out = append(out, leaves("r2", metrics.R2Score(yt, yp, nil, ""))...)
				out = append(out, leaves("mse", metrics.MeanSquaredError(yt, yp, nil, ""))...)
				fpr, tpr, th := metrics.ROCCurve(bt, bs, 1, nil)
				return append(out, leaves("roc", [][]float64{fpr, tpr, th})...)
			}}
	})
	register("C02", &Scenario{Name: "functions", Weight: 3, Race: true, F: func(c *C) {
		in := c.op()
		nj := c.njobs()
		c.Sim("call", func() { in.Call(nj) })
	}})
	register("C03", &Scenario{Name: "functions", Weight: 3, F: func(c *C) {
		in := c.op()
		var ref []Leaf
		c.Ref("one CPU, one job", func() { ref = in.Call(1) })
		for k := 0; k < 3; k++ {
			nj := c.njobs()
			var got []Leaf
			c.Sim("any schedule", func() { got = in.Call(nj) })
			diff := DiffLeaves(ref, got, in.Tol)
			c.Check(diff == "", "result-depends-on-schedule", "%s (%s): with %d jobs on %d CPUs differs from one job on one CPU: %s", in.Name, in.Desc, nj, c.rec[len(c.rec)-1].Cfg.NumCPU, diff)
		}
	}})
	register("C10", &Scenario{Name: "functions", Weight: 3, F: func(c *C) {
		in := c.op()
		if in.Random {
			return
		}
		c.Clock = true
		var ref []Leaf
		g := c.G
		c.Ref("first", func() { ref = in.Call(1) })
		for k := 1; k < 3; k++ {
			c.G = mix64(g + uint64(k)*977)
			nj := c.njobs()
			var got []Leaf
			c.Sim("again", func() { got = in.Call(nj) })
			diff := DiffLeaves(ref, got, in.Tol)
			c.Check(diff == "", "not-reproducible", "%s (%s): the same seeded call gave different results: %s", in.Name, in.Desc, diff)
		}
		c.G = g
	}})
	register("C11", &Scenario{Name: "functions", Weight: 2, F: func(c *C) {
		in := c.op()
		nj := c.njobs()
		c11run(c, in.Name+" ("+in.Desc+")", in.Watched, func() { in.Call(nj) })
	}})
	register("C17", &Scenario{Name: "functions", Weight: 3, Leak: true, F: func(c *C) {
		in := c.op()
		nj := c.njobs()
		c.Sim("call", func() { in.Call(nj) })
		c.st.Checks++
	}})
}

// cloud draws training and query points: spread, on a grid (many ties), with duplicates, on a line.
func cloud(r *Rng, n, f, q int) (X, Q *mat.Dense) {
	kind := r.Intn(5)
	gen := func(n int) *mat.Dense {
		m := normMat(r, n, f, 2)
		switch kind {
		case 1: // grid
			m.Apply(func(i, j int, v float64) float64 { return math.Floor(v) }, m)
		case 2: // coarse grid, many duplicates
			m.Apply(func(i, j int, v float64) float64 { return math.Floor(v / 2) }, m)
		case 3: // all on one line
			for i := 0; i < n; i++ {
				for j := 1; j < f; j++ {
					m.Set(i, j, m.At(i, 0))
				}
			}
		}
		return m
	}
	X = gen(n)
	if kind == 4 { // few distinct points
		k := 1 + r.Intn(3)
		for i := k; i < n; i++ {
			X.SetRow(i, X.RawRowView(r.Intn(k)))
		}
	}
	Q = gen(q)
	for i := 0; i < q; i++ { // some queries are training points
		if r.Chance(4) {
			Q.SetRow(i, X.RawRowView(r.Intn(n)))
		}
	}
	return
}
