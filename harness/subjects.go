//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	lm "github.com/pa-m/sklearn/linear_model"
	ms "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"

	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// Query is one read-only operation on a fitted model.
type Query struct {
	Name string
	F    func(m interface{}, d *Data) []Leaf
}

// Inst is an estimator or transformer with drawn hyperparameters.
type Inst struct {
	Name    string
	Desc    string
	New     func(nj int) interface{}
	Data    func(r *Rng) *Data
	Fit     func(m interface{}, d *Data)
	Queries []Query
	Clone   func(m interface{}) interface{}
	Tol     float64 // allowed difference of parallel results (merged sums)
	Seeded  bool    // everything random comes from an explicit random state
	Random  bool    // the operation draws random numbers at all
	SameF   bool    // refits must keep the number of features
	Linear  bool    // LinearModel family
	NonDet  bool    // the optimiser itself is allowed to depend on the schedule
	Spins   bool    // simplified SMO: the number of rounds is not bounded
	Skip    []string
	Partial func(m interface{}, d *Data) // one more batch, if the subject can learn incrementally
	Warm    func(m interface{})          // ask for a warm start of the next fits, if the subject has it
}

// Subject is a family of instances.
type Subject struct {
	Name   string
	Weight int
	Kind   string // predicter, transformer, neighbors
	Draw   func(r *Rng) *Inst
}

var subjects []*Subject

func subject(name, kind string, w int, draw func(r *Rng) *Inst) {
	subjects = append(subjects, &Subject{Name: name, Weight: w, Kind: kind, Draw: func(r *Rng) *Inst {
		in := draw(r)
		in.Name = name
		if in.Fit == nil {
			in.Fit = func(m interface{}, d *Data) { m.(base.Fiter).Fit(d.mX(), d.mY()) }
		}
		data := in.Data
		in.Data = func(r *Rng) *Data {
			d := data(r)
			if r.Chance(3) {
				d.as(r.PickS(formNames...))
			}
			return d
		}
		if in.Clone == nil {
			switch kind {
			case "predicter":
				in.Clone = func(m interface{}) interface{} { return m.(base.Predicter).PredicterClone() }
			case "transformer":
				in.Clone = func(m interface{}) interface{} { return m.(base.Transformer).TransformerClone() }
			}
		}
		if in.Queries == nil {
			switch kind {
			case "predicter":
				in.Queries = []Query{qPredict, qPredictNil, qScore}
			case "transformer":
				in.Queries = []Query{qTransform}
			}
		}
		return in
	}})
}

func drawSubject(r *Rng, keep func(*Subject) bool) *Inst {
	var order []*Subject
	for _, s := range subjects {
		if keep == nil || keep(s) {
			for i := 0; i < s.Weight; i++ {
				order = append(order, s)
			}
		}
	}
	return order[r.Intn(len(order))].Draw(r)
}

func leaves(name string, v interface{}) []Leaf {
	l := Dump(v)
	for i := range l {
		l[i].Path = name + l[i].Path
	}
	return l
}

func dims(m *mat.Dense) (int, int) {
	if m == nil || m.IsEmpty() {
		return 0, 0
	}
	return m.Dims()
}

var qPredict = Query{"Predict", func(m interface{}, d *Data) []Leaf {
	p := m.(base.Predicter)
	n, _ := d.Q.Dims()
	y := mat.NewDense(n, p.GetNOutputs(), nil)
	out := p.Predict(d.mQ(), y)
	return append(leaves("Predict", y), leaves("Predict returned", out)...)
}}

var qPredictNil = Query{"Predict(nil)", func(m interface{}, d *Data) []Leaf {
	return leaves("Predict(nil)", m.(base.Predicter).Predict(d.mQ(), nil))
}}

var qScore = Query{"Score", func(m interface{}, d *Data) []Leaf {
	return leaves("Score", m.(base.Predicter).Score(d.mQ(), d.mQY()))
}}

var qTransform = Query{"Transform", func(m interface{}, d *Data) []Leaf {
	x, y := m.(base.Transformer).Transform(d.mQ(), d.mQY())
	return append(leaves("Transform X", x), leaves("Transform Y", y)...)
}}

func qInverse(f func(m interface{}, x, y *mat.Dense) (*mat.Dense, *mat.Dense)) Query {
	return Query{"InverseTransform", func(m interface{}, d *Data) []Leaf {
		x, y := m.(base.Transformer).Transform(d.mQ(), d.mQY())
		x, y = cp(x), cp(y)
		xi, yi := f(m, x, y)
		return append(leaves("Inverse X", xi), leaves("Inverse Y", yi)...)
	}}
}

var qInv = qInverse(func(m interface{}, x, y *mat.Dense) (*mat.Dense, *mat.Dense) {
	return c31inverse(m.(base.Transformer), x, y)
})

// newSource draws what kind of seeded source an estimator gets; the function returned makes a
// fresh one in the same state every time.
func newSource(r *Rng) (string, func() base.Source) {
	seed := r.Seed()
	if r.Bool() {
		return "locked", func() base.Source { return base.NewLockedSource(seed) }
	}
	return "plain", func() base.Source { return base.NewSource(seed) }
}

func srcOf(f func() base.Source) base.Source {
	if f == nil {
		return nil
	}
	return f()
}

func regData(maxn, maxf, maxo int) func(r *Rng) *Data {
	return func(r *Rng) *Data {
		f := 1 + r.Intn(maxf)
		if maxf > 2 && r.Chance(40) {
			f += 6 + r.Intn(30)
		}
		n := r.Size(f+3, maxn)
		o := 1 + r.Intn(maxo)
		if maxo > 1 && r.Chance(40) {
			o += 3 + r.Intn(6)
		}
		return RegData(r, n, f, o, querySize(r))
	}
}

func querySize(r *Rng) int {
	if r.Chance(40) {
		return 20 + r.Intn(60)
	}
	return 3 + r.Intn(14)
}

var labelSets = [][]float64{{0, 1, 2, 3}, {1, 2, 3, 4}, {-2, 0.5, 3, 7}, {5, 3, 9, 1}}

var manyLabels = []float64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}

func clsData(maxn, maxf, maxk, maxo int) func(r *Rng) *Data {
	return func(r *Rng) *Data {
		f := 1 + r.Intn(maxf)
		if maxf > 2 && r.Chance(40) {
			f += 6 + r.Intn(30)
		}
		k, labels := 2+r.Intn(maxk-1), labelSets[r.Intn(len(labelSets))]
		if maxk > 3 && r.Chance(40) {
			k, labels = 5+r.Intn(8), manyLabels
		}
		n := r.Size(2*k+1, maxn)
		o := 1 + r.Intn(maxo)
		return ClsData(r, n, f, k, o, querySize(r), labels)
	}
}

// tied moves some of the data onto a lattice, where many rows are equally far from another.
func tied(f func(r *Rng) *Data) func(r *Rng) *Data {
	return func(r *Rng) *Data {
		d := f(r)
		if r.Chance(25) {
			adjacent(r, d.X)
			return d.as(d.Form)
		}
		if r.Chance(4) {
			for _, m := range []*mat.Dense{d.X, d.Q} {
				m.Apply(func(i, j int, v float64) float64 { return math.Round(v) }, m)
			}
			return d.as(d.Form)
		}
		return d
	}
}

// adjacent makes the values of the columns differ by rounding errors only.
func adjacent(r *Rng, m *mat.Dense) {
	n, f := m.Dims()
	for j := 0; j < f; j++ {
		if j > 0 && r.Bool() {
			continue
		}
		v := r.PickF(0.3, 0.1, 1, -2.6, 1e3/7)
		for i := 0; i < n; i++ {
			x := v
			for k := r.Intn(3); k > 0; k-- {
				x = math.Nextafter(x, 1e9)
			}
			m.Set(i, j, x)
		}
	}
}

// unusual draws data for the subject, sometimes with what well-behaved data do not have: constant
// or zero columns, repeated rows, queries that are training rows, features of other magnitudes.
func (in *Inst) unusual(r *Rng) *Data {
	d := in.Data(r)
	if !r.Chance(5) || d.X == nil || d.Q == nil || d.X.IsEmpty() || d.Q.IsEmpty() {
		return d
	}
	n, f := d.X.Dims()
	q, fq := d.Q.Dims()
	if f != fq {
		return d
	}
	each := func(j int, g func(v float64) float64) {
		for i := 0; i < n; i++ {
			d.X.Set(i, j, g(d.X.At(i, j)))
		}
		for i := 0; i < q; i++ {
			d.Q.Set(i, j, g(d.Q.At(i, j)))
		}
	}
	for k := 1 + r.Intn(2); k > 0; k-- {
		j := r.Intn(f)
		switch r.Intn(6) {
		case 0:
			v := r.PickF(0, 1, -2.5)
			each(j, func(float64) float64 { return v })
		case 1:
			v := r.PickF(1e-3, 30, 1e3)
			each(j, func(x float64) float64 { return x * v })
		case 2:
			each(j, math.Abs)
		case 3:
			each(j, func(x float64) float64 { return -math.Abs(x) })
		case 4: // repeated training rows, targets included
			for t := 0; t < 1+n/4; t++ {
				a, b := r.Intn(n), r.Intn(n)
				d.X.SetRow(a, mat.Row(nil, b, d.X))
			}
		default: // queries that are training rows or repeated
			for t := 0; t < 1+q/3; t++ {
				d.Q.SetRow(r.Intn(q), mat.Row(nil, r.Intn(n), d.X))
			}
			d.Q.SetRow(r.Intn(q), mat.Row(nil, r.Intn(q), d.Q))
		}
	}
	return d.as(d.Form)
}

func init() {
	linQ := []Query{qPredict, qPredictNil, qScore, {"DecisionFunction", func(m interface{}, d *Data) []Leaf {
		y := &mat.Dense{}
		m.(interface {
			DecisionFunction(X mat.Matrix, Ymutable mat.Mutable)
		}).DecisionFunction(d.mQ(), y)
		return leaves("Decision", y)
	}}}
	subject("LinearRegression", "predicter", 3, func(r *Rng) *Inst {
		fi, no := r.Bool(), r.Bool()
		return &Inst{Desc: fmt.Sprintf("FitIntercept=%v Normalize=%v", fi, no), Data: regData(25, 6, 4), Queries: linQ, Linear: true,
			New: func(nj int) interface{} {
				m := lm.NewLinearRegression()
				m.FitIntercept, m.Normalize = fi, no
				return m
			}}
	})
	subject("Ridge", "predicter", 2, func(r *Rng) *Inst {
		fi, no := r.Bool(), r.Bool()
		alpha := r.PickF(0.01, 0.1, 1)
		solver := r.PickS("", "", "sgd", "adam", "rmsprop")
		epochs := 3 + r.Intn(8)
		meth := r.Intn(4)
		l1 := r.PickF(0, 0, 0.5)
		in := &Inst{Desc: fmt.Sprintf("FitIntercept=%v Normalize=%v alpha=%g solver=%q epochs=%d method=%d", fi, no, alpha, solver, epochs, meth), Data: regData(20, 4, 4), Queries: linQ, Linear: true, Random: true, NonDet: solver == "" && meth == 2,
			New: func(nj int) interface{} {
				m := lm.NewRidge()
				m.FitIntercept, m.Normalize, m.Alpha, m.L1Ratio, m.Solver = fi, no, alpha, l1, solver
				if solver != "" {
					m.Options.Epochs = epochs
					return m
				}
				m.Options.Epochs = 40
				switch meth {
				case 1:
					m.Options.GOMethodCreator = func() optimize.Method { return &optimize.GradientDescent{} }
				case 2:
					m.Options.GOMethodCreator = func() optimize.Method { return &optimize.CmaEsChol{Src: base.NewSource(7)} }
				case 3:
					m.Options.GOMethodCreator = func() optimize.Method { return &optimize.NelderMead{} }
				}
				return m
			}}
		return in
	})
	subject("SGDRegressor", "predicter", 2, func(r *Rng) *Inst {
		fi, no := r.Bool(), r.Bool()
		alpha := r.PickF(0, 0.0001, 0.1)
		meth := r.PickI(0, 2, 3) // plain gradient descent has no bound on its iterations
		maxf := 3
		if meth == 3 { // with many features the simplex takes very long
			maxf = 2
		}
		return &Inst{Desc: fmt.Sprintf("FitIntercept=%v Normalize=%v alpha=%g method=%d", fi, no, alpha, meth), Data: regData(15, maxf, 3), Queries: linQ, Linear: true,
			New: func(nj int) interface{} {
				m := lm.NewSGDRegressor()
				m.FitIntercept, m.Normalize, m.Alpha, m.NJobs = fi, no, alpha, nj
				switch meth {
				case 2:
					m.Method = &optimize.BFGS{}
				case 3:
					m.Method = &optimize.NelderMead{}
				}
				return m
			}}
	})
	subject("BayesianRidge", "predicter", 1, func(r *Rng) *Inst {
		fi, no := r.Bool(), r.Bool()
		cs := r.Bool()
		q := append([]Query{{"Predict2", func(m interface{}, d *Data) []Leaf {
			n, _ := d.Q.Dims()
			y, s := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
			m.(*lm.BayesianRidge).Predict2(d.Q, y, s)
			return append(leaves("Predict2", y), leaves("std", s)...)
		}}}, linQ...)
		return &Inst{Desc: fmt.Sprintf("FitIntercept=%v Normalize=%v ComputeScore=%v", fi, no, cs), Queries: q, Linear: true,
			Data: regData(20, 4, 1),
			New: func(nj int) interface{} {
				m := lm.NewBayesianRidge()
				m.FitIntercept, m.Normalize, m.ComputeScore = fi, no, cs
				return m
			}}
	})
	for _, name := range []string{"ElasticNet", "Lasso", "MultiTaskElasticNet", "MultiTaskLasso"} {
		name := name
		subject(name, "predicter", 1, func(r *Rng) *Inst {
			fi, no, pos := r.Bool(), r.Bool(), false
			maxo := 3
			if name == "ElasticNet" || name == "Lasso" {
				pos = r.Bool()
				maxo = 1 + 2*r.Intn(2)
			}
			alpha := r.PickF(0.01, 0.1, 0.5)
			l1 := r.PickF(0.2, 0.5, 0.9)
			return &Inst{Desc: fmt.Sprintf("FitIntercept=%v Normalize=%v alpha=%g l1=%g pos=%v", fi, no, alpha, l1, pos), Data: regData(25, 5, maxo), Queries: linQ, Linear: true,
				Warm: func(m interface{}) { m.(*lm.ElasticNet).WarmStart = true },
				New: func(nj int) interface{} {
					var e *lm.ElasticNet
					switch name {
					case "ElasticNet":
						e = lm.NewElasticNet()
						e.L1Ratio = l1
					case "Lasso":
						e = lm.NewLasso()
					case "MultiTaskElasticNet":
						e = lm.NewMultiTaskElasticNet()
						e.L1Ratio = l1
					default:
						e = lm.NewMultiTaskLasso()
					}
					e.FitIntercept, e.Normalize, e.Positive, e.Alpha = fi, no, pos, alpha
					return e
				}}
		})
	}
	subject("LogisticRegression", "predicter", 2, func(r *Rng) *Inst {
		alpha := r.PickF(0, 1e-3, 0.1)
		iter := 2 + r.Intn(15)
		_, src := newSource(r)
		q := []Query{qPredict, qPredictNil, qScore, {"PredictProbas", func(m interface{}, d *Data) []Leaf {
			return leaves("Probas", m.(*lm.LogisticRegression).PredictProbas(d.mQ(), nil))
		}}}
		return &Inst{Desc: fmt.Sprintf("alpha=%g MaxIter=%d", alpha, iter), Data: clsData(25, 4, 4, 1), Queries: q, Seeded: true, Random: true,
			New: func(nj int) interface{} {
				m := lm.NewLogisticRegression()
				m.Alpha, m.MaxIter, m.RandomState = alpha, iter, src()
				return m
			}}
	})
	subject("KNeighborsClassifier", "predicter", 3, func(r *Rng) *Inst {
		k := 1 + r.Intn(4)
		w := r.PickS("uniform", "distance")
		algo := r.PickS("brute", "kdtree", "auto")
		scale := r.Chance(3)
		q := []Query{qPredict, qScore, {"PredictProba", func(m interface{}, d *Data) []Leaf {
			kc := m.(*neighbors.KNeighborsClassifier)
			if kc.GetNOutputs() > 1 { // not defined
				return nil
			}
			n, _ := d.Q.Dims()
			c := 0
			for _, cl := range kc.Classes {
				c += len(cl)
			}
			y := mat.NewDense(n, c, nil)
			kc.PredictProba(d.Q, y)
			return leaves("Proba", y)
		}}}
		return &Inst{Desc: fmt.Sprintf("K=%d weights=%s algorithm=%s scale=%v", k, w, algo, scale), Data: tied(clsData(30, 4, 4, 2)), Queries: q,
			New: func(nj int) interface{} {
				m := neighbors.NewKNeighborsClassifier(k, w)
				m.Algorithm, m.Scale, m.NJobs = algo, scale, nj
				if algo == "auto" { // a fit which needs a tree fills in the default, others leave 0
					m.LeafSize = 30
				}
				return m
			}}
	})
	subject("KNeighborsRegressor", "predicter", 2, func(r *Rng) *Inst {
		k := 1 + r.Intn(4)
		w := r.PickS("uniform", "distance")
		algo := r.PickS("brute", "kdtree", "auto")
		scale := r.Chance(3)
		return &Inst{Desc: fmt.Sprintf("K=%d weights=%s algorithm=%s scale=%v", k, w, algo, scale), Data: tied(regData(30, 4, 3)),
			New: func(nj int) interface{} {
				m := neighbors.NewKNeighborsRegressor(k, w).(*neighbors.KNeighborsRegressor)
				m.Algorithm, m.Scale, m.NJobs = algo, scale, nj
				if algo == "auto" { // a fit which needs a tree fills in the default, others leave 0
					m.LeafSize = 30
				}
				return m
			}}
	})
	subject("NearestCentroid", "predicter", 2, func(r *Rng) *Inst {
		metric := r.PickS("euclidean", "euclidean", "manhattan")
		return &Inst{Desc: "metric=" + metric, Data: tied(clsData(30, 4, 4, 1)), Queries: []Query{qPredict, qScore},
			New: func(nj int) interface{} {
				m := neighbors.NewNearestCentroid(metric, 0)
				m.NearestNeighbors.NJobs = nj
				return m
			}}
	})
	subject("NearestNeighbors", "neighbors", 3, func(r *Rng) *Inst {
		algo := r.PickS("brute", "kdtree", "auto")
		metric := r.PickS("minkowski", "euclidean")
		p := r.PickF(1, 2, 3)
		leaf := r.PickI(1, 2, 5, 30)
		k := 1 + r.Intn(4)
		rad := r.PickF(0.3, 1, 3)
		nnOf := func(m interface{}) *neighbors.NearestNeighbors { return m.(*neighbors.NearestNeighbors) }
		return &Inst{Desc: fmt.Sprintf("algorithm=%s metric=%s p=%g leaf=%d k=%d radius=%g", algo, metric, p, leaf, k, rad), Data: tied(regData(30, 4, 1)),
			New: func(nj int) interface{} {
				m := neighbors.NewNearestNeighbors()
				m.Algorithm, m.Metric, m.P, m.LeafSize, m.NJobs = algo, metric, p, leaf, nj
				return m
			},
			Fit: func(m interface{}, d *Data) { nnOf(m).Fit(d.mX(), d.mY()) },
			Queries: []Query{
				{"KNeighbors", func(m interface{}, d *Data) []Leaf {
					a, b := nnOf(m).KNeighbors(d.mQ(), k)
					return append(leaves("dist", a), leaves("ind", b)...)
				}},
				{"KNeighborsGraph", func(m interface{}, d *Data) []Leaf {
					return leaves("graph", nnOf(m).KNeighborsGraph(d.Q, k, "connectivity", true))
				}},
				{"RadiusNeighbors", func(m interface{}, d *Data) []Leaf {
					a, b := nnOf(m).RadiusNeighbors(d.Q, rad)
					return append(leaves("rdist", a), leaves("rind", b)...)
				}},
			}}
	})
	subject("KMeans", "predicter", 3, func(r *Rng) *Inst {
		k := 1 + r.Intn(4)
		return &Inst{Desc: fmt.Sprintf("k=%d", k), Data: clsData(30, 4, 4, 1), Tol: 1e-9,
			Queries: []Query{qPredict, qPredictNil},
			New:     func(nj int) interface{} { return &cluster.KMeans{NClusters: k, NJobs: nj} }}
	})
	subject("DBSCAN", "predicter", 2, func(r *Rng) *Inst {
		eps := r.PickF(0.5, 1, 2)
		min := float64(1 + r.Intn(5))
		algo := r.PickS("brute", "kdtree", "auto")
		return &Inst{Desc: fmt.Sprintf("eps=%g min=%g algorithm=%s", eps, min, algo), Data: tied(clsData(30, 3, 4, 1)), Queries: []Query{},
			Fit: func(m interface{}, d *Data) { m.(*cluster.DBSCAN).Fit(d.mX(), nil) },
			New: func(nj int) interface{} {
				return cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: min, Algorithm: algo, NJobs: nj})
			}}
	})
	nbQ := []Query{qPredict, qPredictNil, qScore, {"PredictProbas", func(m interface{}, d *Data) []Leaf {
		return leaves("Probas", m.(*nb.GaussianNB).PredictProbas(d.mQ(), nil))
	}}, {"PredictLogProbas", func(m interface{}, d *Data) []Leaf {
		return leaves("LogProbas", m.(*nb.GaussianNB).PredictLogProbas(d.mQ(), nil))
	}}}
	subject("GaussianNB", "predicter", 3, func(r *Rng) *Inst {
		return &Inst{Desc: "", Data: clsData(30, 4, 4, 1), Queries: nbQ, Tol: 1e-9,
			Partial: func(m interface{}, d *Data) {
				cl := map[float64]bool{}
				n, _ := d.Y.Dims()
				for i := 0; i < n; i++ {
					cl[d.Y.At(i, 0)] = true
				}
				var classes []float64
				for c := range cl {
					classes = append(classes, c)
				}
				sort.Float64s(classes)
				m.(*nb.GaussianNB).PartialFit(d.mX(), d.mY(), classes, false, nil)
			},
			New: func(nj int) interface{} { return nb.NewGaussianNB(nil, 1e-9) }}
	})
	subject("SVC", "predicter", 2, func(r *Rng) *Inst {
		kern := r.PickS("linear", "rbf", "poly", "sigmoid")
		gamma := r.PickF(0, 0.5)
		cache := r.PickI(0, 200)
		c := r.PickF(0.5, 1, 10)
		_, src := newSource(r)
		f := 1 + r.Intn(3)
		return &Inst{Desc: fmt.Sprintf("kernel=%s gamma=%g cache=%d C=%g", kern, gamma, cache, c), SameF: gamma <= 0, Seeded: true, Random: true, Spins: true,
			Data: func(r *Rng) *Data {
				return ClsData(r, 6+r.Intn(14), f, 2, 1+r.Intn(4), 3+r.Intn(8), []float64{-1, 1})
			},
			New: func(nj int) interface{} {
				m := svm.NewSVC()
				m.Kernel, m.Gamma, m.MaxIter, m.CacheSize, m.C, m.RandomState = kern, gamma, 4, uint(cache), c, src()
				return m
			}}
	})
	subject("SVR", "predicter", 2, func(r *Rng) *Inst {
		kern := r.PickS("linear", "rbf", "poly")
		gamma := r.PickF(0, 0.5)
		cache := r.PickI(0, 200)
		_, src := newSource(r)
		f := 1 + r.Intn(3)
		return &Inst{Desc: fmt.Sprintf("kernel=%s gamma=%g cache=%d", kern, gamma, cache), SameF: gamma <= 0, Seeded: true, Random: true, Spins: true,
			Data: func(r *Rng) *Data { return RegData(r, 6+r.Intn(12), f, 1+r.Intn(4), 3+r.Intn(8)) },
			New: func(nj int) interface{} {
				m := svm.NewSVR()
				m.Kernel, m.Gamma, m.MaxIter, m.CacheSize, m.RandomState = kern, gamma, 4, uint(cache), src()
				return m
			}}
	})
	mlpConf := func(r *Rng, canEarly bool) (string, bool, func(m *nn.BaseMultilayerPerceptron64)) {
		hid := [][]int{{}, {3}, {4, 2}}[r.Intn(3)]
		act := r.PickS("identity", "logistic", "tanh", "relu")
		solver := r.PickS("adam", "sgd", "lbfgs")
		alpha := r.PickF(0, 1e-4, 0.1)
		iter := 1 + r.Intn(6)
		shuffle := r.Bool()
		early := canEarly && solver != "lbfgs" && r.Chance(3)
		bs := r.PickI(0, 3, 7)
		bn := r.Chance(5) && solver != "lbfgs"
		nest := r.Bool()
		lr := r.PickS("constant", "invscaling", "adaptive")
		_, src := newSource(r)
		return fmt.Sprintf("hidden=%v act=%s solver=%s alpha=%g iter=%d shuffle=%v early=%v batch=%d bn=%v lr=%s", hid, act, solver, alpha, iter, shuffle, early, bs, bn, lr), early,
			func(m *nn.BaseMultilayerPerceptron64) {
				m.HiddenLayerSizes, m.Activation, m.Solver, m.Alpha, m.MaxIter, m.Shuffle, m.EarlyStopping = append([]int{}, hid...), act, solver, alpha, iter, shuffle, early
				m.BatchSize, m.BatchNormalize, m.NesterovsMomentum, m.LearningRate = bs, bn, nest, lr
				m.RandomState = src()
			}
	}
	subject("MLPRegressor", "predicter", 3, func(r *Rng) *Inst {
		d, early, conf := mlpConf(r, true)
		data := regData(14, 3, 2)
		if early {
			data = func(r *Rng) *Data { return RegData(r, 25+r.Intn(10), 1+r.Intn(2), 1+r.Intn(2), 3+r.Intn(5)) }
		}
		return &Inst{Desc: d, Data: data, Seeded: true, Random: true,
			New: func(nj int) interface{} {
				m := nn.NewMLPRegressor(nil, "relu", "adam", 0)
				conf(&m.BaseMultilayerPerceptron64)
				return m
			}, Warm: func(m interface{}) { m.(*nn.MLPRegressor).WarmStart = true }}
	})
	subject("MLPClassifier", "predicter", 3, func(r *Rng) *Inst {
		binary := r.Chance(3)
		d, _, conf := mlpConf(r, binary)
		data := clsData(14, 3, 3, 1)
		if binary {
			data = func(r *Rng) *Data {
				return ClsData(r, 8+r.Intn(14), 1+r.Intn(3), 2, 1, 3+r.Intn(8), []float64{0, 1})
			}
		}
		return &Inst{Desc: d, Data: data, Seeded: true, Random: true,
			New: func(nj int) interface{} {
				m := nn.NewMLPClassifier(nil, "relu", "adam", 0)
				conf(&m.BaseMultilayerPerceptron64)
				return m
			}, Warm: func(m interface{}) { m.(*nn.MLPClassifier).WarmStart = true }}
	})
	subject("MLP64", "raw", 1, func(r *Rng) *Inst {
		cls := r.Bool()
		d, _, conf := mlpConf(r, false)
		data := regData(14, 3, 2)
		if cls {
			data = clsData(14, 3, 3, 1)
		}
		of := func(m interface{}) *nn.BaseMultilayerPerceptron64 { return m.(*nn.BaseMultilayerPerceptron64) }
		return &Inst{Desc: fmt.Sprintf("classifier=%v %s", cls, d), Data: data, Seeded: true, Random: true,
			Fit: func(m interface{}, d *Data) { of(m).Fit(d.mX(), d.mY()) },
			Queries: []Query{{"Predict", func(m interface{}, d *Data) []Leaf {
				n, _ := d.Q.Dims()
				y := mat.NewDense(n, of(m).GetNOutputs(), nil)
				of(m).Predict(d.mQ(), y)
				return leaves("Predict", y)
			}}, {"Score", func(m interface{}, d *Data) []Leaf {
				return leaves("Score", of(m).Score(d.mQ(), d.mQY()))
			}}},
			New: func(nj int) interface{} {
				m := nn.NewBaseMultilayerPerceptron64()
				conf(m)
				if !cls {
					m.LossFuncName = "square_loss"
				}
				return m
			}}
	})
	subject("MLP32", "raw", 1, func(r *Rng) *Inst {
		cls := r.Bool()
		d, _, conf := mlpConf(r, false)
		data := regData(14, 3, 2)
		if cls {
			data = clsData(14, 3, 3, 1)
		}
		of := func(m interface{}) *nn.BaseMultilayerPerceptron32 { return m.(*nn.BaseMultilayerPerceptron32) }
		return &Inst{Desc: fmt.Sprintf("classifier=%v %s", cls, d), Data: data, Seeded: true, Random: true,
			Fit: func(m interface{}, d *Data) { of(m).Fit(d.mX(), d.mY()) },
			Queries: []Query{{"Predict", func(m interface{}, d *Data) []Leaf {
				n, _ := d.Q.Dims()
				y := mat.NewDense(n, of(m).GetNOutputs(), nil)
				of(m).Predict(d.mQ(), y)
				return leaves("Predict", y)
			}}, {"Score", func(m interface{}, d *Data) []Leaf {
				return leaves("Score", of(m).Score(d.mQ(), d.mQY()))
			}}},
			New: func(nj int) interface{} {
				m, t := nn.NewBaseMultilayerPerceptron32(), nn.NewBaseMultilayerPerceptron64()
				conf(t)
				m.HiddenLayerSizes, m.Activation, m.Solver, m.Alpha, m.MaxIter, m.Shuffle = t.HiddenLayerSizes, t.Activation, t.Solver, float32(t.Alpha), t.MaxIter, t.Shuffle
				m.BatchSize, m.BatchNormalize, m.NesterovsMomentum, m.LearningRate, m.RandomState = t.BatchSize, t.BatchNormalize, t.NesterovsMomentum, t.LearningRate, t.RandomState
				if !cls {
					m.LossFuncName = "square_loss"
				}
				return m
			}}
	})
	subject("GaussianProcess", "predicter", 1, func(r *Rng) *Inst {
		cv, ls, nl := r.PickF(0.5, 1, 3), r.PickF(0.5, 1, 10), r.PickF(0.1, 1)
		kind := r.Intn(3)
		al := r.PickF(0.1, 1)
		grad := r.Bool()
		of := func(m interface{}) *gp.Regressor { return m.(*gp.Regressor) }
		lml := func(name string, f float64) Query {
			return Query{name, func(m interface{}, d *Data) []Leaf {
				t0 := of(m).KernelOpt.Theta()
				n, c := t0.Dims()
				th := mat.NewDense(n, c, nil)
				for i := 0; i < n; i++ {
					for j := 0; j < c; j++ {
						th.Set(i, j, t0.At(i, j)+f*float64(i+1))
					}
				}
				v, g := of(m).LogMarginalLikelihood(th, grad)
				return append(leaves("lml", v), leaves("grad", g)...)
			}}
		}
		return &Inst{Desc: fmt.Sprintf("kernel=%d constant=%g length=%g noise=%g alpha=%g grad=%v", kind, cv, ls, nl, al, grad), Data: func(r *Rng) *Data { f := 1 + r.Intn(2); return RegData(r, f+3+r.Intn(6), f, 1, 3+r.Intn(14)) },
			Queries: []Query{lml("LogMarginalLikelihood", 0), lml("LogMarginalLikelihood(elsewhere)", 0.3)},
			New: func(nj int) interface{} {
				rbf := &kernels.RBF{LengthScale: []float64{ls}, LengthScaleBounds: [][2]float64{{1e-2, 1e2}}}
				var k kernels.Kernel = rbf
				switch kind {
				case 1:
					k = &kernels.Product{KernelOperator: kernels.KernelOperator{K1: &kernels.ConstantKernel{ConstantValue: cv, ConstantValueBounds: [2]float64{1e-3, 1e3}}, K2: rbf}}
				case 2:
					k = &kernels.Sum{KernelOperator: kernels.KernelOperator{K1: &kernels.WhiteKernel{NoiseLevel: nl, NoiseLevelBounds: [2]float64{1e-3, 1e3}}, K2: rbf}}
				}
				m := gp.NewRegressor(k)
				m.Alpha = []float64{al}
				return m
			}}
	})
	subject("Pipeline", "predicter", 2, func(r *Rng) *Inst {
		var inner *Inst
		if r.Bool() {
			inner = drawSubject(r, func(s *Subject) bool { return s.Name == "LinearRegression" || s.Name == "KNeighborsRegressor" })
		} else {
			inner = drawSubject(r, func(s *Subject) bool { return s.Name == "LinearRegression" })
		}
		scalers := []string{"minmax", "standard", "robust", "pca"}
		s1, s2 := scalers[r.Intn(3)], scalers[r.Intn(4)]
		two := r.Bool()
		mk := func(s string) base.Fiter {
			switch s {
			case "minmax":
				return pp.NewMinMaxScaler([]float64{0, 1})
			case "standard":
				return pp.NewStandardScaler()
			case "robust":
				return pp.NewDefaultRobustScaler()
			}
			return pp.NewPCA()
		}
		return &Inst{Desc: fmt.Sprintf("%s %s(%v) %s %s", s1, s2, two, inner.Name, inner.Desc), Data: inner.Data, SameF: true,
			Queries: []Query{qPredict, qScore},
			New: func(nj int) interface{} {
				st := []base.Fiter{mk(s1)}
				if two {
					st = append(st, mk(s2))
				}
				st = append(st, inner.New(nj).(base.Fiter))
				return pipeline.MakePipeline(st...)
			}}
	})
	subject("GridSearchCV", "predicter", 1, func(r *Rng) *Inst {
		seed := r.Seed()
		shuf := r.Bool()
		ns := 2 + r.Intn(3)
		return &Inst{Desc: fmt.Sprintf("splits=%d shuffle=%v", ns, shuf), Data: regData(15, 3, 1), Seeded: true, Random: true,
			Clone: nil, Skip: []string{"Estimator", "CV", "Scorer", "mean_fit_time", "mean_score_time"},
			New: func(nj int) interface{} {
				cv := &ms.KFold{NSplits: ns, Shuffle: shuf, RandomState: base.NewLockedSource(seed)}
				return &ms.GridSearchCV{Estimator: lm.NewLasso(), ParamGrid: map[string][]interface{}{
					"Alpha": {0.01, 0.1, 1.}, "FitIntercept": {true, false}}, CV: cv, NJobs: nj, Scorer: func(Yt, Yp mat.Matrix) float64 {
					s := 0.0
					n, _ := Yt.Dims()
					for i := 0; i < n; i++ {
						e := Yt.At(i, 0) - Yp.At(i, 0)
						s -= e * e
					}
					return s
				}}
			}}
	})

	// ---- transformers
	tr := func(name string, inv bool, mk func(r *Rng) (string, func() base.Transformer), data func(r *Rng) *Data) {
		subject(name, "transformer", 1, func(r *Rng) *Inst {
			desc, f := mk(r)
			q := []Query{qTransform}
			if inv {
				q = append(q, qInv)
			}
			in := &Inst{Desc: desc, Data: data, Queries: q, New: func(nj int) interface{} { return f() }}
			switch f().(type) {
			case interface {
				PartialFit(X, Y *mat.Dense) base.Transformer
			}:
				in.Partial = func(m interface{}, d *Data) {
					m.(interface {
						PartialFit(X, Y *mat.Dense) base.Transformer
					}).PartialFit(d.X, d.Y)
				}
			case *pp.MinMaxScaler:
				in.Partial = func(m interface{}, d *Data) { m.(*pp.MinMaxScaler).PartialFit(d.X, d.Y) }
			}
			return in
		})
	}
	reg := regData(25, 5, 2)
	tr("MinMaxScaler", true, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewMinMaxScaler([]float64{0, 1}) }
	}, reg)
	tr("StandardScaler", true, func(r *Rng) (string, func() base.Transformer) {
		wm, ws := r.Bool(), r.Bool()
		return fmt.Sprintf("mean=%v std=%v", wm, ws), func() base.Transformer {
			m := pp.NewStandardScaler()
			m.WithMean, m.WithStd = wm, ws
			return m
		}
	}, reg)
	tr("RobustScaler", true, func(r *Rng) (string, func() base.Transformer) {
		ce, sc := r.Bool(), r.Bool()
		return fmt.Sprintf("center=%v scale=%v", ce, sc), func() base.Transformer {
			return pp.NewRobustScaler(ce, sc, &pp.QuantilePair{Left: 0.25, Right: 0.75})
		}
	}, reg)
	tr("PolynomialFeatures", true, func(r *Rng) (string, func() base.Transformer) {
		d, io, ib := 1+r.Intn(3), r.Bool(), r.Bool()
		return fmt.Sprintf("degree=%d interaction=%v bias=%v", d, io, ib), func() base.Transformer {
			m := pp.NewPolynomialFeatures(d)
			m.InteractionOnly, m.IncludeBias = io, ib
			return m
		}
	}, regData(12, 4, 1))
	small := func(r *Rng) *Data { // small non-negative integers in X, labels in Y
		d := clsData(25, 3, 3, 1)(r)
		for _, x := range []*mat.Dense{d.X, d.Q} {
			x.Apply(func(i, j int, v float64) float64 { return math.Mod(math.Abs(math.Floor(v)), 3) }, x)
		}
		// every query value occurs in training
		n, f := d.X.Dims()
		for i := 0; i < 3 && i < n; i++ {
			for j := 0; j < f; j++ {
				d.X.Set(i, j, float64(i))
			}
		}
		return d
	}
	tr("OneHotEncoder", true, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewOneHotEncoder() }
	}, small)
	tr("Binarizer", false, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewBinarizer() }
	}, reg)
	tr("MaxAbsScaler", true, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewMaxAbsScaler() }
	}, reg)
	tr("Normalizer", false, func(r *Rng) (string, func() base.Transformer) {
		n := r.PickS("l1", "l2", "max")
		ax := r.Intn(2)
		return fmt.Sprintf("norm=%s axis=%d", n, ax), func() base.Transformer {
			m := pp.NewNormalizer()
			m.Norm, m.Axis = n, ax
			return m
		}
	}, reg)
	tr("KernelCenterer", false, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewKernelCenterer() }
	}, func(r *Rng) *Data {
		n := 2 + r.Intn(8)
		d := RegData(r, n, n, 1, n)
		d.X.Mul(d.X, d.X.T())
		d.Q.Mul(d.Q, d.Q.T())
		return d
	})
	subject("QuantileTransformer", "transformer", 1, func(r *Rng) *Inst {
		nq := 3 + r.Intn(6)
		dist := r.PickS("uniform", "normal")
		_, src := newSource(r)
		return &Inst{Desc: fmt.Sprintf("n=%d dist=%s", nq, dist), Data: reg, Seeded: true, Random: true,
			New: func(nj int) interface{} { return pp.NewQuantileTransformer(nq, dist, src()) }}
	})
	subject("PowerTransformer", "transformer", 1, func(r *Rng) *Inst {
		meth := r.PickS("yeo-johnson", "box-cox")
		std := r.Bool()
		return &Inst{Desc: fmt.Sprintf("method=%s standardize=%v", meth, std), Queries: []Query{qTransform, qInv},
			Data: func(r *Rng) *Data {
				d := regData(15, 3, 1)(r)
				if meth == "box-cox" {
					for _, x := range []*mat.Dense{d.X, d.Q} {
						x.Apply(func(i, j int, v float64) float64 { return math.Abs(v) + 0.1 }, x)
					}
				}
				return d
			},
			New: func(nj int) interface{} {
				m := pp.NewPowerTransformer()
				m.Method, m.Standardize = meth, std
				return m
			}}
	})
	tr("KBinsDiscretizer", true, func(r *Rng) (string, func() base.Transformer) {
		nb := 2 + r.Intn(4)
		enc, strat := r.PickS("ordinal", "onehot-dense"), r.PickS("uniform", "quantile")
		return fmt.Sprintf("bins=%d encode=%s strategy=%s", nb, enc, strat), func() base.Transformer {
			m := pp.NewKBinsDiscretizer(nb)
			m.Strategy, m.Encode = strat, enc
			return m
		}
	}, reg)
	tr("FunctionTransformer", true, func(r *Rng) (string, func() base.Transformer) {
		sq := func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			o := &mat.Dense{}
			o.Apply(func(i, j int, v float64) float64 { return v*v*v + 1 }, X)
			return o, Y
		}
		return "", func() base.Transformer { return pp.NewFunctionTransformer(sq, sq) }
	}, reg)
	tr("Imputer", true, func(r *Rng) (string, func() base.Transformer) {
		st := r.PickS("mean", "median", "most_frequent")
		return st, func() base.Transformer {
			m := pp.NewImputer()
			m.Strategy = st
			return m
		}
	}, func(r *Rng) *Data {
		d := reg(r)
		for _, x := range []*mat.Dense{d.X, d.Q} {
			n, f := x.Dims()
			for k := 0; k < n*f/5; k++ {
				x.Set(2+r.Intn(n-2), r.Intn(f), math.NaN())
			}
		}
		return d
	})
	tr("LabelBinarizer", true, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewLabelBinarizer(0, 1) }
	}, clsData(20, 2, 4, 2))
	tr("LabelEncoder", true, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewLabelEncoder() }
	}, clsData(20, 2, 4, 2))
	tr("PCA", true, func(r *Rng) (string, func() base.Transformer) {
		return "", func() base.Transformer { return pp.NewPCA() }
	}, func(r *Rng) *Data { f := 1 + r.Intn(5); return RegData(r, f+3+r.Intn(20), f, 1, 3+r.Intn(10)) })
	tr("PCAtruncated", false, func(r *Rng) (string, func() base.Transformer) {
		nc := r.PickI(0, 1, 2)
		vr := r.PickF(0.5, 0.9)
		return fmt.Sprintf("components=%d", nc), func() base.Transformer {
			m := pp.NewPCA()
			if m.NComponents = nc; nc == 0 {
				m.MinVarianceRatio = vr
			}
			return m
		}
	}, func(r *Rng) *Data { f := 2 + r.Intn(4); return RegData(r, f+3+r.Intn(20), f, 1, 3+r.Intn(10)) })
	subject("Shuffler", "transformer", 1, func(r *Rng) *Inst {
		_, src := newSource(r)
		return &Inst{Data: reg, Seeded: true, Random: true,
			Queries: []Query{{"Transform", func(m interface{}, d *Data) []Leaf {
				x, y := m.(base.Transformer).Transform(d.mX(), d.mY())
				return append(leaves("X", x), leaves("Y", y)...)
			}}, {"Inverse", func(m interface{}, d *Data) []Leaf {
				x, y := m.(base.Transformer).Transform(d.mX(), d.mY())
				x, y = m.(*pp.Shuffler).InverseTransform(cp(x), cp(y))
				return append(leaves("IX", x), leaves("IY", y)...)
			}}},
			New: func(nj int) interface{} {
				m := pp.NewShuffler()
				m.RandomState = src()
				return m
			}}
	})
	subject("MultiLabelBinarizer", "raw", 1, func(r *Rng) *Inst {
		str := r.Bool()
		names := []string{"a", "bb", "c", "dd", "e", "ff", "g", "hh", "i", "jj"}
		toStr := func(m *mat.Dense) [][]string {
			n, c := m.Dims()
			out := make([][]string, n)
			for i := range out {
				for j := 0; j < c; j++ {
					out[i] = append(out[i], names[int(math.Abs(m.At(i, j)))%len(names)])
				}
			}
			return out
		}
		y := func(m *mat.Dense) interface{} {
			if str {
				return toStr(m)
			}
			return m
		}
		of := func(m interface{}) *pp.MultiLabelBinarizer { return m.(*pp.MultiLabelBinarizer) }
		return &Inst{Desc: fmt.Sprintf("strings=%v", str), Data: clsData(20, 2, 4, 3),
			Clone: func(m interface{}) interface{} { return of(m).TransformerClone() },
			Fit:   func(m interface{}, d *Data) { of(m).Fit2(d.X, y(d.Y)) },
			Queries: []Query{{"Transform2", func(m interface{}, d *Data) []Leaf {
				a, b := of(m).Transform2(d.X, y(d.Y))
				return append(leaves("X", a), leaves("Y", b)...)
			}}, {"InverseTransform", func(m interface{}, d *Data) []Leaf {
				_, b := of(m).Transform2(d.X, y(d.Y))
				_, v := of(m).InverseTransform(nil, b)
				return leaves("IY", v)
			}}},
			New: func(nj int) interface{} { return pp.NewMultiLabelBinarizer() }}
	})
}
