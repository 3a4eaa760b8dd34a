//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C40", &Scenario{Name: "restored-perceptrons", Weight: 1, Race: true, F: c40restore})
}

// ---------------------------------------------------------------- C40

// savedNet is a perceptron as scikit-learn's JSON describes it.
type savedNet struct {
	kind, act, out string
	units          []int
	w              []*mat.Dense
	b              [][]float64
}

func drawSaved(r *Rng) *savedNet {
	s := &savedNet{kind: r.PickS("MLPClassifier", "MLPClassifier", "MLPRegressor", "MLP64", "MLP32"), act: r.PickS("identity", "logistic", "tanh", "relu")}
	s.units = []int{1 + r.Intn(4)}
	for k := r.Intn(4); k > 0; k-- {
		s.units = append(s.units, 1+r.Intn(4))
	}
	s.units = append(s.units, 1+r.Intn(3))
	switch {
	case s.kind == "MLPRegressor" || s.kind != "MLPClassifier" && r.Chance(3):
		s.out = "identity"
	case s.units[len(s.units)-1] > 1:
		s.out = "softmax"
	default:
		s.out = "logistic"
	}
	for l := 0; l+1 < len(s.units); l++ {
		s.w = append(s.w, normMat(r, s.units[l], s.units[l+1], 1))
		s.b = append(s.b, normMat(r, 1, s.units[l+1], 1).RawMatrix().Data)
	}
	return s
}

// predict is the forward pass; rows whose class is in doubt by less than the margin are NaN.
func (s *savedNet) predict(Q *mat.Dense, margin float64) *mat.Dense {
	a := cp(Q)
	for l := range s.w {
		z := &mat.Dense{}
		mulInto(z, a, s.w[l])
		z.Apply(func(_, j int, v float64) float64 { return v + s.b[l][j] }, z)
		if l == len(s.w)-1 {
			activate(s.out, z)
		} else {
			activate(s.act, z)
		}
		a = z
	}
	if s.out == "identity" {
		return a
	}
	n, o := a.Dims()
	for i := 0; i < n; i++ {
		row := a.RawRowView(i)
		if o == 1 {
			switch {
			case math.Abs(row[0]-0.5) < margin:
				row[0] = math.NaN()
			case row[0] > 0.5:
				row[0] = 1
			default:
				row[0] = 0
			}
			continue
		}
		best, second := 0, -1
		for j := range row {
			if row[j] > row[best] {
				best = j
			}
		}
		for j := range row {
			if j != best && (second < 0 || row[j] > row[second]) {
				second = j
			}
		}
		doubt := row[best]-row[second] < margin
		for j := range row {
			row[j] = 0
			if j == best {
				row[j] = 1
			}
			if doubt {
				row[j] = math.NaN()
			}
		}
	}
	return a
}

// doc is the JSON document, damaged in the given way.
func (s *savedNet) doc(r *Rng, damage string, nested bool) []byte {
	params := map[string]interface{}{"activation": s.act, "alpha": 0.0001, "batch_size": "auto", "beta_1": 0.9, "beta_2": 0.999, "early_stopping": false, "epsilon": 1e-08,
		"hidden_layer_sizes": s.units[1 : len(s.units)-1], "learning_rate": "constant", "learning_rate_init": 0.001, "max_iter": 400, "momentum": 0.9, "power_t": 0.5,
		"random_state": 7, "shuffle": true, "solver": "adam", "tol": 0.0001, "validation_fraction": 0.1, "verbose": false, "warm_start": false}
	var coefs [][][]float64
	var inter [][]float64
	for l := range s.w {
		var rows [][]float64
		for i := 0; i < s.units[l]; i++ {
			rows = append(rows, append([]float64{}, s.w[l].RawRowView(i)...))
		}
		coefs, inter = append(coefs, rows), append(inter, append([]float64{}, s.b[l]...))
	}
	doc := params
	if nested {
		doc = map[string]interface{}{"params": params}
	}
	doc["out_activation_"] = s.out
	l := r.Intn(len(coefs))
	i := r.Intn(len(coefs[l]))
	switch damage {
	case "intercepts lost":
		inter = inter[:len(inter)-1]
	case "intercepts short":
		inter[l] = inter[l][1:]
	case "intercepts long":
		inter[l] = append(inter[l], 0.5)
	case "row short":
		coefs[l][i] = coefs[l][i][:len(coefs[l][i])-1]
	case "row long":
		coefs[l][i] = append(coefs[l][i], 0.5)
	case "rows lost":
		coefs[l] = coefs[l][:len(coefs[l])-1]
	case "rows added":
		coefs[l] = append(coefs[l], coefs[l][i])
	case "layer lost":
		coefs = append(coefs[:l], coefs[l+1:]...)
	}
	doc["coefs_"], doc["intercepts_"] = coefs, inter
	if damage == "no intercepts" {
		delete(doc, "intercepts_")
	}
	buf, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	if damage == "cut" {
		buf = buf[:1+r.Intn(len(buf)-1)]
	}
	return buf
}

// c40restore restores perceptrons from documents, whole ones and damaged ones, several at the same time
// and over whatever the receiver held before.
func c40restore(c *C) {
	r := c.R
	workers := 1 + r.Intn(3)
	nets := make([]*savedNet, workers)
	docs := make([][]byte, workers)
	qs := make([]*mat.Dense, workers)
	damage := make([]string, workers)
	used := make([]bool, workers)
	seeds := make([]*Rng, workers)
	for k := range nets {
		nets[k] = drawSaved(r)
		damage[k] = r.PickS("", "", "", "cut", "no intercepts", "intercepts lost", "intercepts short", "intercepts long", "row short", "row long", "rows lost", "rows added", "layer lost")
		s := nets[k]
		if damage[k] == "rows added" || damage[k] == "rows lost" || damage[k] == "layer lost" {
			// without hidden layers these describe another, sound network
			if len(s.w) < 2 {
				damage[k] = "row long"
			}
		}
		docs[k] = s.doc(r, damage[k], r.Bool())
		if damage[k] != "" && damage[k] != "cut" && sound(docs[k]) {
			damage[k] = "harmless"
		}
		qs[k] = normMat(r, 1+r.Intn(5), s.units[0], 1)
		used[k] = r.Bool()
		seeds[k] = NewRng(r.U64())
		c.Desc("%s %v %s, damage %q, receiver fitted before %v;", s.kind, s.units, s.act, damage[k], used[k])
	}
	got := make([]*mat.Dense, workers)
	failed := make([]string, workers)
	c.Sim("restore", func() {
		together(workers, func(k int) {
			got[k], failed[k] = nets[k].restore(docs[k], qs[k], used[k], damage[k] == "", seeds[k])
		})
	})
	for k, s := range nets {
		where := fmt.Sprintf("%s %v %s, damage %q, receiver fitted before %v", s.kind, s.units, s.act, damage[k], used[k])
		switch damage[k] {
		case "":
			c.Check(failed[k] == "", "not-restored", "%s: %s", where, failed[k])
			tol, margin := 1e-9, 1e-9
			if s.kind == "MLP32" {
				tol, margin = 1e-3, 1e-3
			}
			want := s.predict(qs[k], margin)
			n, o := want.Dims()
			gn, gc := dims(got[k])
			c.Check(gn == n && gc == o, "restored-differently", "%s: predictions are %d x %d instead of %d x %d", where, gn, gc, n, o)
			for i := 0; i < n; i++ {
				for j := 0; j < o; j++ {
					if w := want.At(i, j); !math.IsNaN(w) {
						c.Check(sameF(got[k].At(i, j), w, tol), "restored-differently", "%s: prediction (%d,%d) is %g, the saved network's %g", where, i, j, got[k].At(i, j), w)
					}
				}
			}
			c.Probe("restored " + s.kind)
		case "harmless":
		default:
			c.Check(failed[k] != "", "damage-unnoticed", "%s: the damaged document was accepted", where)
			c.Probe("damage " + damage[k])
		}
	}
}

// sound tells whether a damaged document still describes a network, of other sizes.
func sound(buf []byte) bool {
	var d struct {
		Coefs      [][][]float64 `json:"coefs_"`
		Intercepts [][]float64   `json:"intercepts_"`
	}
	if json.Unmarshal(buf, &d) != nil || len(d.Coefs) == 0 || len(d.Coefs) != len(d.Intercepts) {
		return false
	}
	for l, w := range d.Coefs {
		if len(w) == 0 || len(w[0]) == 0 || len(d.Intercepts[l]) != len(w[0]) || l > 0 && len(w) != len(d.Coefs[l-1][0]) {
			return false
		}
		for _, row := range w {
			if len(row) != len(w[0]) {
				return false
			}
		}
	}
	return true
}

func (s *savedNet) restore(doc []byte, Q *mat.Dense, used, whole bool, r *Rng) (out *mat.Dense, failed string) {
	n, _ := Q.Dims()
	before := ClsData(r, 12, 2, 3, 1, 3, []float64{0, 1, 2})
	hidden := []int{3}
	if r.Bool() { // a receiver of the same layers
		last := len(s.units) - 1
		hidden = append([]int{}, s.units[1:last]...)
		before.X, before.Y = normMat(r, 12, s.units[0], 1), normMat(r, 12, s.units[last], 1)
		if s.kind != "MLPRegressor" { // one class per row
			for i := 0; i < 12; i++ {
				for j := 0; j < s.units[last]; j++ {
					v := 0.
					if i%(s.units[last]+1) == j {
						v = 1
					}
					before.Y.Set(i, j, v)
				}
			}
		}
	}
	conf := func(m *nn.BaseMultilayerPerceptron64) {
		m.MaxIter, m.Activation, m.HiddenLayerSizes, m.RandomState = 2, r.PickS("relu", "tanh"), hidden, base.NewLockedSource(7)
	}
	load := func(f func([]byte) error) (msg string) {
		defer func() {
			if e := recover(); e != nil {
				if msg = fmt.Sprint(e); msg == "" {
					msg = "panic"
				}
			}
		}()
		if err := f(doc); err != nil {
			return err.Error()
		}
		return ""
	}
	switch s.kind {
	case "MLPClassifier":
		m := nn.NewMLPClassifier([]int{}, "relu", "adam", 0)
		if used {
			conf(&m.BaseMultilayerPerceptron64)
			m.Fit(before.X, before.Y)
		}
		if failed = load(m.Unmarshal); failed == "" && whole {
			out = mat.NewDense(n, s.units[len(s.units)-1], nil)
			m.Predict(Q, out)
		}
	case "MLPRegressor":
		m := nn.NewMLPRegressor([]int{}, "relu", "adam", 0)
		if used {
			conf(&m.BaseMultilayerPerceptron64)
			m.Fit(before.X, before.Y)
		}
		if failed = load(m.Unmarshal); failed == "" && whole {
			out = mat.NewDense(n, s.units[len(s.units)-1], nil)
			m.Predict(Q, out)
		}
	case "MLP64":
		m := nn.NewBaseMultilayerPerceptron64()
		if used {
			conf(m)
			m.Fit(before.X, before.Y)
		}
		if failed = load(m.Unmarshal); failed == "" && whole {
			out = mat.NewDense(n, s.units[len(s.units)-1], nil)
			m.Predict(Q, out)
		}
	case "MLP32":
		m := nn.NewBaseMultilayerPerceptron32()
		if used {
			m.MaxIter, m.Activation, m.HiddenLayerSizes, m.RandomState = 2, "relu", hidden, base.NewLockedSource(7)
			m.Fit(before.X, before.Y)
		}
		if failed = load(m.Unmarshal); failed == "" && whole {
			out = mat.NewDense(n, s.units[len(s.units)-1], nil)
			m.Predict(Q, out)
		}
	}
	return
}
