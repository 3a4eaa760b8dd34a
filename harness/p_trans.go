//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C31", &Scenario{Name: "transformers", Weight: 5, Race: true, F: c31transformers})
	register("C31", &Scenario{Name: "statistics", Weight: 1, Race: true, F: c31statistics})
	register("C35", &Scenario{Name: "encoders", Weight: 1, Race: true, F: c35encoders})
}

// ---------------------------------------------------------------- C31

// trSpec is one configured transformer with its definition.
type trSpec struct {
	name, desc string
	make       func() base.Transformer
	X          *mat.Dense
	// definition: what Transform has to make of row block q, and how exact
	def func(t base.Transformer, q *mat.Dense) (want, tol *mat.Dense)
	// inverse: what InverseTransform has to make of the transformed q (nil: not offered)
	inv func(t base.Transformer, q, out *mat.Dense) (want, tol *mat.Dense)
	// fitted judges the fitted attributes
	fitted func(t base.Transformer) string
	// stateful transformers remember their last Transform for the inverse
	stateful bool
	query    func(r *Rng, n int) *mat.Dense
}

// trMatrix draws a matrix whose columns differ in kind: spread, ties, constants, magnitudes.
func trMatrix(r *Rng, n, f int) *mat.Dense {
	m := mat.NewDense(n, f, nil)
	for j := 0; j < f; j++ {
		kind := r.Intn(5)
		scale := []float64{.01, 1, 1, 30, 1000}[r.Intn(5)]
		unit := 1.
		if r.Chance(8) {
			unit = math.Ldexp(1, r.PickI(-60, -40, -30, -20, 20, 40))
		}
		shift := []float64{0, 0, 1, -5, 100}[r.Intn(5)]
		constant := float64(r.Intn(9)-4) / 2
		for i := 0; i < n; i++ {
			v := 0.
			switch kind {
			case 0, 1:
				v = shift + scale*r.Norm()
			case 2:
				v = float64(r.Intn(5) - 2)
			case 3:
				v = float64(r.Intn(40)) / 4
			case 4:
				v = constant
			}
			m.Set(i, j, v*unit)
		}
	}
	return m
}

// formed is a copy of m stored in another way.
func formed(form string, m *mat.Dense) mat.Matrix {
	switch form {
	case "window":
		return strided(m)
	case "opaque":
		return opaque{cp(m)}
	case "transposed":
		return cp(mat.DenseCopyOf(m.T())).T()
	}
	return cp(m)
}

func colv(m *mat.Dense, j int) []float64 { return mat.Col(nil, j, m) }

func tolLike(m *mat.Dense, f func(i, j int) float64) *mat.Dense {
	n, c := dims(m)
	t := mat.NewDense(n, c, nil)
	t.Apply(func(i, j int, _ float64) float64 { return f(i, j) }, t)
	return t
}

func mapMat(m *mat.Dense, f func(i, j int, v float64) float64) *mat.Dense {
	o := cp(m)
	o.Apply(f, o)
	return o
}

func colMinMax(m *mat.Dense, j int) (lo, hi float64) {
	v := colv(m, j)
	sort.Float64s(v)
	return v[0], v[len(v)-1]
}

func colAbs(m *mat.Dense, j int) float64 {
	lo, hi := colMinMax(m, j)
	return math.Max(math.Abs(lo), math.Abs(hi))
}

// popVar is the mean and the population variance.
func popVar(v []float64) (mean, variance float64) {
	for _, x := range v {
		mean += x
	}
	mean /= float64(len(v))
	for _, x := range v {
		variance += (x - mean) * (x - mean)
	}
	return mean, variance / float64(len(v))
}

// isQuantile tells if q is a value of the sample v at which its distribution function reaches p.
func isQuantile(q, p float64, v []float64) bool {
	below, upto, in := 0, 0, false
	for _, x := range v {
		if x < q {
			below++
		}
		if x <= q {
			upto++
		}
		in = in || x == q
	}
	np := p * float64(len(v))
	return in && float64(below) <= np+1e-9 && float64(upto) >= np-1e-9
}

func diffTol(want, got, tol *mat.Dense) string {
	n, f := dims(want)
	if gn, gf := dims(got); gn != n || gf != f {
		return fmt.Sprintf("%d x %d instead of %d x %d", gn, gf, n, f)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			w, g := want.At(i, j), got.At(i, j)
			if math.IsNaN(w) && math.IsNaN(g) || w == g || math.IsInf(tol.At(i, j), 1) {
				continue
			}
			if !(math.Abs(w-g) <= tol.At(i, j)) {
				return fmt.Sprintf("element %d,%d is %v instead of %v", i, j, g, w)
			}
		}
	}
	return ""
}

func c31inverse(t base.Transformer, X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
	switch v := t.(type) {
	case *pp.KBinsDiscretizer:
		if Y == nil {
			return v.InverseTransform(X, nil)
		}
		return v.InverseTransform(X, Y)
	case *pp.PowerTransformer:
		if Y == nil {
			return v.InverseTransform(X, nil)
		}
		return v.InverseTransform(X, Y)
	}
	return t.(pp.InverseTransformer).InverseTransform(X, Y)
}

// yeoJohnson and boxCox are the power transforms as documented.
func yeoJohnson(x, l float64) float64 {
	switch {
	case x >= 0 && l == 0:
		return math.Log1p(x)
	case x >= 0:
		return math.Expm1(l*math.Log1p(x)) / l
	case l == 2:
		return -math.Log1p(-x)
	}
	return -math.Expm1((2-l)*math.Log1p(-x)) / (2 - l)
}

func boxCox(x, l float64) float64 {
	if l == 0 {
		return math.Log(x)
	}
	return math.Expm1(l*math.Log(x)) / l
}

func powerNLL(method string, x []float64, l float64) float64 {
	t := make([]float64, len(x))
	jac := 0.
	for i, v := range x {
		if method == "box-cox" {
			t[i] = boxCox(v, l)
			jac += math.Log(v)
		} else {
			t[i] = yeoJohnson(v, l)
			if v > 0 {
				jac += math.Log1p(v)
			} else {
				jac -= math.Log1p(-v)
			}
		}
	}
	_, variance := popVar(t)
	return float64(len(x))/2*math.Log(variance) - (l-1)*jac
}

func trDraw(c *C) *trSpec {
	r := c.R
	n, f := 1+r.Intn(24), 1+r.Intn(7)
	X := trMatrix(r, n, f)
	s := &trSpec{X: X}
	s.query = func(r *Rng, k int) *mat.Dense { return trMatrix(r, k, f) }
	switch r.Intn(12) {
	case 0:
		lo := float64(r.Intn(5) - 3)
		hi := lo + []float64{1, 2, .5, 10}[r.Intn(4)]
		s.name, s.desc = "MinMaxScaler", fmt.Sprintf("range %g..%g", lo, hi)
		s.make = func() base.Transformer { return pp.NewMinMaxScaler([]float64{lo, hi}) }
		width := func(j int) (float64, float64) {
			a, b := colMinMax(X, j)
			if b == a {
				return a, 1
			}
			return a, b - a
		}
		tol := func(q *mat.Dense) func(i, j int) float64 {
			return func(i, j int) float64 {
				a, w := width(j)
				return 1e-11 * (1 + math.Abs(lo) + (math.Abs(q.At(i, j))+math.Abs(a))/w*(hi-lo))
			}
		}
		s.def = func(_ base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
				a, w := width(j)
				return lo + (v-a)/w*(hi-lo)
			}), tolLike(q, tol(q))
		}
		s.inv = func(_ base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			return q, tolLike(q, func(i, j int) float64 {
				_, w := width(j)
				return tol(q)(i, j) * w / (hi - lo) * 4
			})
		}
		s.fitted = func(t base.Transformer) string {
			m := t.(*pp.MinMaxScaler)
			for j := 0; j < f; j++ {
				a, b := colMinMax(X, j)
				if m.DataMin.At(0, j) != a || m.DataMax.At(0, j) != b || m.NSamplesSeen != n {
					return fmt.Sprintf("column %d is within %v..%v, %d rows; fitted %v..%v, %d rows", j, a, b, n, m.DataMin.At(0, j), m.DataMax.At(0, j), m.NSamplesSeen)
				}
			}
			return ""
		}
	case 1:
		mean, std := r.Intn(4) > 0, r.Intn(4) > 0
		s.name, s.desc = "StandardScaler", fmt.Sprintf("mean %v std %v", mean, std)
		s.make = func() base.Transformer {
			m := pp.NewStandardScaler()
			m.WithMean, m.WithStd = mean, std
			return m
		}
		par := func(j int) (mu, sd float64) {
			mu, v := popVar(colv(X, j))
			sd = math.Sqrt(v)
			if sd == 0 || !std {
				sd = 1
			}
			if !mean {
				mu = 0
			}
			return
		}
		rel := func(j int) float64 { // relative error of the deviation
			_, v := popVar(colv(X, j))
			a := colAbs(X, j)
			if v == 0 || !std {
				return 1e-11
			}
			return 1e-11 * (1 + a*a/v)
		}
		s.def = func(_ base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
					mu, sd := par(j)
					return (v - mu) / sd
				}), tolLike(q, func(i, j int) float64 {
					_, sd := par(j)
					return rel(j) * (1 + (math.Abs(q.At(i, j))+colAbs(X, j))/sd)
				})
		}
		s.inv = func(_ base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			return q, tolLike(q, func(i, j int) float64 { return 1e-11 * (1 + math.Abs(q.At(i, j)) + colAbs(X, j)) })
		}
	case 2:
		centre, scale := r.Intn(4) > 0, r.Intn(4) > 0
		ql, qr := []float64{.25, .1, 0, .3}[r.Intn(4)], []float64{.75, .9, 1, .6}[r.Intn(4)]
		s.name, s.desc = "RobustScaler", fmt.Sprintf("center %v scale %v quantiles %g..%g", centre, scale, ql, qr)
		s.make = func() base.Transformer {
			return pp.NewRobustScaler(centre, scale, &pp.QuantilePair{Left: ql, Right: qr})
		}
		par := func(t base.Transformer, j int) (mu, sd float64) {
			m := t.(*pp.RobustScaler)
			sd = 1
			if centre {
				mu = m.Median.At(0, j)
			}
			if scale {
				sd = m.QuantileDivider.At(0, j)
			}
			return
		}
		s.fitted = func(t base.Transformer) string {
			for j := 0; j < f; j++ {
				mu, sd := par(t, j)
				v := colv(X, j)
				if centre && !isQuantile(mu, .5, v) {
					return fmt.Sprintf("%v is no median of column %d, %v", mu, j, v)
				}
				if !scale {
					continue
				}
				ok := false
				for _, a := range v {
					for _, b := range v {
						if isQuantile(a, ql, v) && isQuantile(b, qr, v) {
							ok = ok || b-a == sd || b == a && sd == 1
						}
					}
				}
				if !ok {
					return fmt.Sprintf("%v is not the distance of the quantiles %g and %g of column %d, %v", sd, ql, qr, j, v)
				}
			}
			return ""
		}
		s.def = func(t base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
					mu, sd := par(t, j)
					return (v - mu) / sd
				}), tolLike(q, func(i, j int) float64 {
					mu, sd := par(t, j)
					return 1e-12 * (1 + (math.Abs(q.At(i, j))+math.Abs(mu))/math.Abs(sd))
				})
		}
		s.inv = func(_ base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			return q, tolLike(q, func(i, j int) float64 { return 1e-11 * (1 + math.Abs(q.At(i, j)) + colAbs(X, j)) })
		}
	case 3:
		s.name = "MaxAbsScaler"
		s.make = func() base.Transformer { return pp.NewMaxAbsScaler() }
		div := func(j int) float64 {
			if a := colAbs(X, j); a > 0 {
				return a
			}
			return 1
		}
		s.def = func(_ base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 { return v / div(j) }), tolLike(q, func(i, j int) float64 { return 1e-13 * math.Abs(q.At(i, j)) / div(j) })
		}
		s.inv = func(_ base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			return q, tolLike(q, func(i, j int) float64 { return 1e-13 * math.Abs(q.At(i, j)) })
		}
	case 4:
		th := []float64{0, 1, -.5, 2.25}[r.Intn(4)]
		s.name, s.desc = "Binarizer", fmt.Sprintf("threshold %g", th)
		s.make = func() base.Transformer { return &pp.Binarizer{Threshold: th} }
		s.def = func(_ base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
				if v > th {
					return 1
				}
				return 0
			}), tolLike(q, func(i, j int) float64 { return 0 })
		}
	case 5:
		norm, axis := r.PickS("l1", "l2", "max"), r.Intn(2)
		s.name, s.desc, s.stateful = "Normalizer", fmt.Sprintf("%s axis %d", norm, axis), true
		s.make = func() base.Transformer { return &pp.Normalizer{Norm: norm, Axis: axis} }
		s.def = func(_ base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			size := func(i, j int) float64 {
				var v []float64
				if axis == 0 {
					v = colv(q, j)
				} else {
					v = append(v, q.RawRowView(i)...)
				}
				s := 0.
				for _, x := range v {
					switch norm {
					case "l1":
						s += math.Abs(x)
					case "l2":
						s = math.Hypot(s, x)
					default:
						s = math.Max(s, math.Abs(x))
					}
				}
				if s == 0 {
					s = 1
				}
				return s
			}
			return mapMat(q, func(i, j int, v float64) float64 { return v / size(i, j) }), tolLike(q, func(i, j int) float64 { return 1e-12 })
		}
		s.inv = func(_ base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			return q, tolLike(q, func(i, j int) float64 { return 1e-12 * math.Abs(q.At(i, j)) })
		}
	case 6:
		strategy := r.PickS("mean", "median", "most_frequent", "")
		s.name, s.desc = "Imputer", strategy
		holes := func(m *mat.Dense, keep bool) {
			k, _ := m.Dims()
			for j := 0; j < f; j++ {
				full := 0
				if keep {
					full = r.Intn(k)
				}
				for i := 0; i < k; i++ {
					if r.Chance(3) && !(keep && i == full) {
						m.Set(i, j, math.NaN())
					}
				}
			}
		}
		holes(X, true)
		s.query = func(r *Rng, k int) *mat.Dense {
			q := trMatrix(r, k, f)
			holes(q, false)
			return q
		}
		s.make = func() base.Transformer { return &pp.Imputer{Strategy: strategy} }
		known := func(j int) (v []float64) {
			for _, x := range colv(X, j) {
				if !math.IsNaN(x) {
					v = append(v, x)
				}
			}
			return
		}
		s.fitted = func(t base.Transformer) string {
			m := t.(*pp.Imputer)
			for j := 0; j < f; j++ {
				v, got := known(j), m.MissingValues[j]
				switch strategy {
				case "median":
					if !isQuantile(got, .5, v) {
						return fmt.Sprintf("%v is no median of column %d, %v", got, j, v)
					}
				case "most_frequent":
					count := map[float64]int{}
					most := 0
					for _, x := range v {
						count[x]++
						if count[x] > most {
							most = count[x]
						}
					}
					if count[got] != most {
						return fmt.Sprintf("%v is not a most frequent value of column %d, %v", got, j, v)
					}
				default:
					mu, _ := popVar(v)
					a := 0.
					for _, x := range v {
						a = math.Max(a, math.Abs(x))
					}
					if math.Abs(mu-got) > 1e-12*a {
						return fmt.Sprintf("%v is not the mean %v of column %d, %v", got, mu, j, v)
					}
				}
			}
			return ""
		}
		s.def = func(t base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
				if math.IsNaN(v) {
					return t.(*pp.Imputer).MissingValues[j]
				}
				return v
			}), tolLike(q, func(i, j int) float64 { return 0 })
		}
	case 7:
		bins := 1 + r.Intn(6)
		encode, strategy := r.PickS("ordinal", "onehot-dense"), r.PickS("quantile", "uniform")
		s.name, s.desc = "KBinsDiscretizer", fmt.Sprintf("%d bins %s %s", bins, encode, strategy)
		s.make = func() base.Transformer { return &pp.KBinsDiscretizer{NBins: bins, Encode: encode, Strategy: strategy} }
		s.fitted = func(t base.Transformer) string {
			m := t.(*pp.KBinsDiscretizer)
			for j := 0; j < f; j++ {
				v := colv(X, j)
				lo, hi := colMinMax(X, j)
				if len(m.BinEdges) != f || len(m.BinEdges[j]) != bins+1 {
					return fmt.Sprintf("column %d has edges %v", j, m.BinEdges)
				}
				for b, e := range m.BinEdges[j] {
					p := float64(b) / float64(bins)
					if strategy == "uniform" && math.Abs(e-(lo+p*(hi-lo))) > 1e-12*(math.Abs(lo)+math.Abs(hi)) || strategy == "quantile" && !isQuantile(e, p, v) {
						return fmt.Sprintf("edge %d of column %d is %v; values %v", b, j, e, v)
					}
				}
			}
			return ""
		}
		bin := func(t base.Transformer, j int, x float64) int {
			e := t.(*pp.KBinsDiscretizer).BinEdges[j]
			k := 0
			for b := 1; b < bins; b++ {
				if x >= e[b] {
					k = b
				}
			}
			return k
		}
		s.def = func(t base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			if encode == "ordinal" {
				return mapMat(q, func(i, j int, v float64) float64 { return float64(bin(t, j, v)) }), tolLike(q, func(i, j int) float64 { return 0 })
			}
			k, _ := q.Dims()
			o := mat.NewDense(k, f*bins, nil)
			for i := 0; i < k; i++ {
				for j := 0; j < f; j++ {
					o.Set(i, j*bins+bin(t, j, q.At(i, j)), 1)
				}
			}
			return o, tolLike(o, func(i, j int) float64 { return 0 })
		}
		s.inv = func(t base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
					e, b := t.(*pp.KBinsDiscretizer).BinEdges[j], bin(t, j, v)
					return e[b]/2 + e[b+1]/2
				}), tolLike(q, func(i, j int) float64 {
					lo, hi := colMinMax(X, j)
					return 1e-13 * (math.Abs(lo) + math.Abs(hi))
				})
		}
	case 8:
		method := r.PickS("yeo-johnson", "box-cox")
		standardize := r.Bool()
		given := r.Chance(3) // parameters set by hand, not fitted
		s.name, s.desc = "PowerTransformer", fmt.Sprintf("%s standardize %v", method, standardize)
		draw := func(r *Rng, k int) *mat.Dense {
			m := mat.NewDense(k, f, nil)
			for j := 0; j < f; j++ {
				sc := []float64{.1, 1, 5}[r.Intn(3)]
				for i := 0; i < k; i++ {
					v := sc * r.Norm()
					if method == "box-cox" {
						v = math.Exp(v / 5)
					}
					m.Set(i, j, v)
				}
			}
			return m
		}
		if n < 4 {
			n += 4
		}
		X = draw(r, n)
		s.X, s.query = X, draw
		var lambdas []float64
		if given {
			for j := 0; j < f; j++ {
				lambdas = append(lambdas, []float64{0, 2, 1, .5, -1, 3, -.25}[r.Intn(7)])
			}
			standardize = false
			s.desc = fmt.Sprintf("%s lambdas %v set by hand", method, lambdas)
		}
		s.make = func() base.Transformer {
			m := pp.NewPowerTransformer()
			m.Method, m.Standardize = method, standardize
			return m
		}
		if given {
			inner := s.make
			s.make = func() base.Transformer { return &byHand{inner().(*pp.PowerTransformer), lambdas} }
		}
		power := func(t base.Transformer) *pp.PowerTransformer {
			if b, ok := t.(*byHand); ok {
				return b.PowerTransformer
			}
			return t.(*pp.PowerTransformer)
		}
		raw := func(x, l float64) float64 {
			if method == "box-cox" {
				return boxCox(x, l)
			}
			return yeoJohnson(x, l)
		}
		slope := func(x, l float64) float64 {
			switch {
			case method == "box-cox":
				return math.Pow(x, l-1)
			case x >= 0:
				return math.Pow(x+1, l-1)
			}
			return math.Pow(1-x, 1-l)
		}
		scaler := func(t base.Transformer, j int) (mu, sd float64) {
			if !standardize {
				return 0, 1
			}
			m := power(t)
			v := colv(X, j)
			for i := range v {
				v[i] = raw(v[i], m.Lambdas[j])
			}
			mu, va := popVar(v)
			return mu, math.Sqrt(va)
		}
		s.fitted = func(t base.Transformer) string {
			m := power(t)
			if given {
				return ""
			}
			for j := 0; j < f; j++ {
				v, l := colv(X, j), m.Lambdas[j]
				at := powerNLL(method, v, l)
				if math.IsInf(at, 0) || math.Abs(l) > 30 {
					continue // the likelihood has no maximum within the range of numbers
				}
				for _, dl := range []float64{1e-3, -1e-3, .02, -.02} {
					if o := powerNLL(method, v, l+dl); !(at <= o+1e-7*(1+math.Abs(at))) {
						return fmt.Sprintf("lambda %v of column %d is not the most likely one: -log likelihood %v, %v at %v; values %v", l, j, at, o, l+dl, v)
					}
				}
			}
			return ""
		}
		s.def = func(t base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			m := power(t)
			return mapMat(q, func(i, j int, v float64) float64 {
					mu, sd := scaler(t, j)
					return (raw(v, m.Lambdas[j]) - mu) / sd
				}), tolLike(q, func(i, j int) float64 {
					mu, sd := scaler(t, j)
					l := m.Lambdas[j]
					a := math.Abs(raw(q.At(i, j), l)) + math.Abs(mu)
					near := 1 + 1/math.Max(math.Abs(l), 1e-9) + 1/math.Max(math.Abs(2-l), 1e-9)
					if l == 0 || l == 2 {
						near = 3
					}
					e := 1e-14 * near
					return (e+1e-10*a)/sd + 1e-9*a/sd*(1+mu*mu/sd/sd)*1e-3
				})
		}
		s.inv = func(t base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			m := power(t)
			return q, tolLike(q, func(i, j int) float64 {
				l := m.Lambdas[j]
				x := q.At(i, j)
				mu, sd := scaler(t, j)
				te := 1e-14*(1+1/math.Max(math.Abs(l), 1e-9)+1/math.Max(math.Abs(2-l), 1e-9)) + 1e-13*(math.Abs(raw(x, l))+math.Abs(mu)+sd)
				if l == 0 || l == 2 {
					te = 1e-13 * (3 + math.Abs(raw(x, l)))
				}
				sl := slope(x, l)
				if te > .01*sl*(1+math.Abs(x)) {
					return math.Inf(1) // saturated: nothing can be restored
				}
				return 1e-10*(1+math.Abs(x)) + 100*te/sl
			})
		}
	case 9:
		s.name = "PCA"
		comps := 0
		ratio := 0.
		k := n
		if f < k {
			k = f
		}
		switch r.Intn(3) {
		case 0:
			comps = 1 + r.Intn(k)
		case 1:
			ratio = []float64{.3, .9, .999}[r.Intn(3)]
		}
		if r.Bool() { // well conditioned, more rows than columns
			X = normMat(r, n, f, 1)
			s.X = X
		}
		zero := mat.Norm(X, 2) == 0
		if zero {
			X.Set(0, 0, 1)
		}
		s.desc = fmt.Sprintf("components %d ratio %g", comps, ratio)
		s.make = func() base.Transformer { return &pp.PCA{NComponents: comps, MinVarianceRatio: ratio} }
		vOf := func(t base.Transformer) *mat.Dense {
			v := new(mat.Dense)
			t.(*pp.PCA).SVD.VTo(v)
			return v
		}
		cut := func(t base.Transformer) *mat.Dense {
			v := vOf(t)
			return cp(v.Slice(0, f, 0, t.(*pp.PCA).NComponents).(*mat.Dense))
		}
		s.fitted = func(t base.Transformer) string {
			m := t.(*pp.PCA)
			v := vOf(t)
			if vr, vc := v.Dims(); vr != f || vc != k || len(m.SingularValues) != k || len(m.ExplainedVarianceRatio) != k {
				return fmt.Sprintf("%d x %d directions, %d singular values, %d ratios for %d x %d data", vr, vc, len(m.SingularValues), len(m.ExplainedVarianceRatio), n, f)
			}
			var o, p, pg mat.Dense
			mulInto(&o, v.T(), v)
			mulInto(&p, X, v)
			mulInto(&pg, p.T(), &p)
			total, tr := 0., 0.
			for i := 0; i < n; i++ {
				for j := 0; j < f; j++ {
					total += X.At(i, j) * X.At(i, j)
				}
			}
			for a := 0; a < k; a++ {
				for b := 0; b < k; b++ {
					w := 0.
					if a == b {
						w = 1
					}
					if math.Abs(o.At(a, b)-w) > 1e-9 {
						return fmt.Sprintf("directions %d and %d are not orthonormal: %v", a, b, o.At(a, b))
					}
					if a != b && math.Abs(pg.At(a, b)) > 1e-9*total {
						return fmt.Sprintf("components %d and %d are correlated: %v", a, b, pg.At(a, b))
					}
				}
				s2 := m.SingularValues[a] * m.SingularValues[a]
				tr += s2
				if math.Abs(pg.At(a, a)-s2) > 1e-9*total || a > 0 && m.SingularValues[a] > m.SingularValues[a-1]*(1+1e-12) {
					return fmt.Sprintf("singular values %v, squared sizes of the components %v", m.SingularValues, fmtMat(&pg))
				}
				if math.Abs(m.ExplainedVarianceRatio[a]-s2/total) > 1e-9 {
					return fmt.Sprintf("explained variance ratio %v, singular values %v", m.ExplainedVarianceRatio, m.SingularValues)
				}
			}
			if math.Abs(tr-total) > 1e-9*total {
				return fmt.Sprintf("components explain %v of %v", tr, total)
			}
			want := k
			if comps > 0 {
				want = comps
			}
			if ratio > 0 {
				cum := 0.
				for want = 0; want < k && cum < ratio; want++ {
					cum += m.ExplainedVarianceRatio[want]
					if math.Abs(cum-ratio) < 1e-9 {
						return ""
					}
				}
			}
			if m.NComponents != want {
				return fmt.Sprintf("%d components instead of %d; ratios %v", m.NComponents, want, m.ExplainedVarianceRatio)
			}
			return ""
		}
		rowTol := func(q *mat.Dense, o *mat.Dense) *mat.Dense {
			return tolLike(o, func(i, j int) float64 { return 1e-10 * (1e-3 + mat.Norm(q.RowView(i), 2)) })
		}
		s.def = func(t base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			var o mat.Dense
			mulInto(&o, q, cut(t))
			return &o, rowTol(q, &o)
		}
		s.inv = func(t base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
			v := cut(t)
			var o, b mat.Dense
			mulInto(&o, q, v)
			mulInto(&b, &o, v.T())
			if q == s.X && t.(*pp.PCA).NComponents == k {
				nrm := mat.Norm(X, 2)
				return q, tolLike(q, func(i, j int) float64 { return 1e-9 * nrm })
			}
			return &b, rowTol(q, &b)
		}
	case 11:
		nq := 2 + r.Intn(8)
		s.name, s.desc = "QuantileTransformer", fmt.Sprintf("%d quantiles", nq)
		s.make = func() base.Transformer { return pp.NewQuantileTransformer(nq, "uniform", nil) }
		quantiles := make([][]float64, f)
		for j := range quantiles {
			v := append([]float64{}, colv(X, j)...)
			sort.Float64s(v)
			for k := 0; k < nq; k++ {
				t := float64(k) / float64(nq-1) * float64(len(v)-1)
				a := int(math.Min(math.Floor(t), float64(len(v)-1)))
				b := int(math.Min(float64(a+1), float64(len(v)-1)))
				quantiles[j] = append(quantiles[j], v[a]+(t-float64(a))*(v[b]-v[a]))
			}
		}
		// position of x among the quantiles: the first one or the last one where several are equal
		position := func(j int, x float64, first bool) float64 {
			q := quantiles[j]
			switch {
			case x < q[0] || x == q[0] && first:
				return 0
			case x > q[nq-1] || x == q[nq-1] && !first:
				return 1
			}
			k := sort.Search(nq, func(k int) bool { return q[k] > x || q[k] == x && first })
			return (float64(k-1) + (x-q[k-1])/(q[k]-q[k-1])) / float64(nq-1)
		}
		between := func(q *mat.Dense, i, j int) (lo, hi float64) {
			x, d := q.At(i, j), 1e-13*(colAbs(X, j)+math.Abs(q.At(i, j)))
			return position(j, x-d, true), position(j, x+d, false)
		}
		s.def = func(_ base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			return mapMat(q, func(i, j int, v float64) float64 {
					lo, hi := between(q, i, j)
					return (lo + hi) / 2
				}), tolLike(q, func(i, j int) float64 {
					lo, hi := between(q, i, j)
					return (hi-lo)/2 + 2e-7
				})
		}
	case 10:
		degree := r.Intn(4)
		inter, bias := r.Bool(), r.Bool()
		if f > 4 {
			f = 4
		}
		if degree == 0 {
			bias = true
		}
		X = trMatrix(r, n, f)
		s.X = X
		s.name, s.desc = "PolynomialFeatures", fmt.Sprintf("degree %d interactions %v bias %v", degree, inter, bias)
		s.make = func() base.Transformer {
			return &pp.PolynomialFeatures{Degree: degree, InteractionOnly: inter, IncludeBias: bias}
		}
		s.fitted = func(t base.Transformer) string {
			seen := map[string]bool{}
			last := -1
			for _, p := range t.(*pp.PolynomialFeatures).Powers {
				sum, most := 0, 0
				for _, e := range p {
					sum += e
					if e > most {
						most = e
					}
				}
				key := fmt.Sprint(p)
				if len(p) != f || seen[key] || sum > degree || inter && most > 1 || sum == 0 && !bias || sum < last {
					return fmt.Sprintf("powers %v", t.(*pp.PolynomialFeatures).Powers)
				}
				seen[key] = true
				last = sum
			}
			want := 0
			for d := 0; d <= degree; d++ {
				if d == 0 && !bias {
					continue
				}
				if inter {
					want += binom(f, d)
				} else {
					want += binom(f+d-1, d)
				}
			}
			if len(seen) != want {
				return fmt.Sprintf("%d features instead of %d: %v", len(seen), want, t.(*pp.PolynomialFeatures).Powers)
			}
			return ""
		}
		s.def = func(t base.Transformer, q *mat.Dense) (*mat.Dense, *mat.Dense) {
			P := t.(*pp.PolynomialFeatures).Powers
			k, _ := q.Dims()
			o := mat.NewDense(k, len(P), nil)
			for i := 0; i < k; i++ {
				for a, p := range P {
					v := 1.
					for j, e := range p {
						for ; e > 0; e-- {
							v *= q.At(i, j)
						}
					}
					o.Set(i, a, v)
				}
			}
			return o, mapMat(o, func(i, j int, v float64) float64 { return 1e-12 * math.Abs(v) })
		}
		if degree > 0 {
			s.inv = func(t base.Transformer, q, out *mat.Dense) (*mat.Dense, *mat.Dense) {
				return q, tolLike(q, func(i, j int) float64 { return 1e-13 * math.Abs(q.At(i, j)) })
			}
		}
	}
	return s
}

func binom(n, k int) int {
	if k < 0 || k > n {
		return 0
	}
	b := 1
	for i := 0; i < k; i++ {
		b = b * (n - i) / (i + 1)
	}
	return b
}

// byHand is a PowerTransformer whose parameters are given instead of fitted.
type byHand struct {
	*pp.PowerTransformer
	lambdas []float64
}

func (b *byHand) Fit(X, Y mat.Matrix) base.Fiter {
	b.Lambdas = append([]float64(nil), b.lambdas...)
	return b
}

func (b *byHand) FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	b.Fit(X, Y)
	return b.Transform(X, Y)
}

func c31transformers(c *C) {
	s := trDraw(c)
	r := c.R
	form := r.PickS("dense", "dense", "window", "opaque", "transposed")
	n, f := s.X.Dims()
	var Y *mat.Dense
	if r.Bool() {
		Y = trMatrix(r, n, 1+r.Intn(2))
	}
	callers := 1 + r.Intn(3)
	if s.stateful {
		callers = 1
	}
	qs, ys := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	for k := range qs {
		if k == 0 && r.Bool() {
			qs[k] = s.X
			ys[k] = Y
			continue
		}
		rows := 1 + r.Intn(9)
		qs[k] = s.query(r, rows)
		if Y != nil {
			_, o := Y.Dims()
			ys[k] = trMatrix(r, rows, o)
		}
	}
	useFT := r.Chance(3)
	c.Desc("%s (%s), data %d x %d (%s), %d callers at the same time, FitTransform %v", s.name, s.desc, n, f, form, callers, useFT)
	t := s.make()
	outs, outYs := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	invs, invYs := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	var ft *mat.Dense
	mi := func(m *mat.Dense) mat.Matrix {
		if m == nil {
			return nil
		}
		return formed(form, m)
	}
	c.Sim("fit, transform and invert", func() {
		if useFT {
			x, _ := t.FitTransform(mi(s.X), mi(Y))
			ft = cp(x)
		} else {
			t.Fit(mi(s.X), mi(Y))
		}
		together(callers, func(k int) {
			x, y := t.Transform(mi(qs[k]), mi(ys[k]))
			outs[k], outYs[k] = cp(x), cp(y)
			if s.inv != nil {
				var tt base.Transformer = t
				if b, ok := t.(*byHand); ok {
					tt = b.PowerTransformer
				}
				x, y = c31inverse(tt, x, y)
				invs[k], invYs[k] = cp(x), cp(y)
			}
		})
	})
	if s.fitted != nil {
		bad := s.fitted(t)
		c.Check(bad == "", "fitted", "%s (%s), data %d x %d: %s", s.name, s.desc, n, f, bad)
	}
	judge := func(what string, got, gotY, want, wantY, tol, q *mat.Dense) {
		diff := diffTol(want, got, tol)
		c.Check(diff == "", what, "%s (%s) fitted on %s: %s of %s: %s", s.name, s.desc, fmtMat(s.X), what, fmtMat(q), diff)
		if wantY != nil {
			diff := DiffDense(wantY, gotY, 0)
			c.Check(diff == "", what+"-y", "%s (%s): %s does not pass Y through: %s", s.name, s.desc, what, diff)
		}
	}
	for k, q := range qs {
		want, tol := s.def(t, q)
		judge("transform", outs[k], outYs[k], want, ys[k], tol, q)
		if s.inv != nil {
			want, tol := s.inv(t, q, outs[k])
			judge("inverse", invs[k], invYs[k], want, ys[k], tol, q)
		}
	}
	if ft != nil {
		want, tol := s.def(t, s.X)
		judge("transform", ft, nil, want, nil, tol, s.X)
	}
	c.Probe(s.name)
}

func c31statistics(c *C) {
	r := c.R
	n, f := 1+r.Intn(24), 1+r.Intn(9)
	X := trMatrix(r, n, f)
	form := r.PickS("dense", "dense", "window", "opaque", "transposed")
	c.Desc("statistics of %d x %d (%s)", n, f, form)
	var mean, mean2, std2, variance, std, dmean, given, dummy, scaled *mat.Dense
	K, Q := trMatrix(r, n, f), trMatrix(r, 1+r.Intn(2*n), f)
	var kk, kq mat.Dense
	mulInto(&kk, K, K.T())
	mulInto(&kq, Q, K.T())
	var ck, cq *mat.Dense
	c.Sim("statistics", func() {
		fs := []func(){
			func() { mean = pp.Mean(formed(form, X)) },
			func() { mean2, std2 = pp.MeanStdDev(formed(form, X)) },
			func() { variance = pp.NumpyLike{}.Var(formed(form, X)) },
			func() { std = pp.NumpyLike{}.Std(formed(form, X)) },
			func() {
				dmean = pp.DenseMean(nil, formed(form, X))
				given = trMatrix(r, 1, f)
				pp.DenseMean(given, formed(form, X))
			},
			func() {
				dummy = cp(X)
				pp.AddDummyFeature(dummy)
				scaled = pp.Scale(cp(X))
			},
			func() {
				t := pp.NewKernelCenterer()
				t.Fit(formed(form, &kk), nil)
				ck, _ = t.Transform(formed(form, &kk), nil)
				cq, _ = t.Transform(formed(form, &kq), nil)
			},
		}
		together(len(fs), func(k int) { fs[k]() })
	})
	row := func(g func(v []float64) float64) *mat.Dense {
		m := mat.NewDense(1, f, nil)
		for j := 0; j < f; j++ {
			m.Set(0, j, g(colv(X, j)))
		}
		return m
	}
	mu := row(func(v []float64) float64 { a, _ := popVar(v); return a })
	va := row(func(v []float64) float64 { _, b := popVar(v); return b })
	sd := mapMat(va, func(_, _ int, v float64) float64 { return math.Sqrt(v) })
	judge := func(what string, want, got, tol *mat.Dense) {
		diff := diffTol(want, got, tol)
		c.Check(diff == "", "statistic", "%s of %s: %s", what, fmtMat(X), diff)
	}
	tm := tolLike(mu, func(i, j int) float64 { return 1e-12 * colAbs(X, j) })
	tv := tolLike(mu, func(i, j int) float64 { return 1e-11 * colAbs(X, j) * colAbs(X, j) })
	ts := tolLike(mu, func(i, j int) float64 {
		if sd.At(0, j) == 0 {
			return 1e-7 * colAbs(X, j)
		}
		return 1e-11*colAbs(X, j) + 1e-11*colAbs(X, j)*colAbs(X, j)/sd.At(0, j)
	})
	judge("Mean", mu, mean, tm)
	judge("MeanStdDev (mean)", mu, mean2, tm)
	judge("DenseMean", mu, dmean, tm)
	judge("DenseMean into a matrix with contents", mu, given, tm)
	judge("Var", va, variance, tv)
	judge("Std", sd, std, ts)
	if n > 1 {
		judge("MeanStdDev (deviation)", sd, std2, ts)
	}
	want := mat.NewDense(n, f+1, nil)
	want.Apply(func(i, j int, _ float64) float64 {
		if j == 0 {
			return 1
		}
		return X.At(i, j-1)
	}, want)
	judge("AddDummyFeature", want, dummy, tolLike(want, func(i, j int) float64 { return 0 }))
	judge("Scale", mapMat(X, func(i, j int, v float64) float64 {
		s := sd.At(0, j)
		if s == 0 {
			s = 1
		}
		return (v - mu.At(0, j)) / s
	}), scaled, tolLike(X, func(i, j int) float64 {
		s := sd.At(0, j)
		if s == 0 {
			s = 1
		}
		return 1e-11 * (1 + colAbs(X, j)/s) * (1 + math.Pow(colAbs(X, j)/s, 2))
	}))
	// a centred kernel is the kernel of the centred points
	centre := func(m *mat.Dense) *mat.Dense {
		return mapMat(m, func(i, j int, v float64) float64 {
			a, _ := popVar(colv(K, j))
			return v - a
		})
	}
	var wk, wq mat.Dense
	mulInto(&wk, centre(K), centre(K).T())
	mulInto(&wq, centre(Q), centre(K).T())
	big := 0.
	for j := 0; j < f; j++ {
		big += math.Pow(colAbs(K, j)+colAbs(Q, j), 2)
	}
	tol := func(m *mat.Dense) *mat.Dense { return tolLike(m, func(i, j int) float64 { return 1e-11 * big }) }
	diff := diffTol(&wk, ck, tol(&wk))
	c.Check(diff == "", "kernel-centering", "KernelCenterer of the kernel of %s: %s", fmtMat(K), diff)
	diff = diffTol(&wq, cq, tol(&wq))
	c.Check(diff == "", "kernel-centering", "KernelCenterer fitted on the kernel of %s, applied to that of %s: %s", fmtMat(K), fmtMat(Q), diff)
}

// ---------------------------------------------------------------- C35

func c35encoders(c *C) {
	r := c.R
	n, o := 1+r.Intn(20), 1+r.Intn(3)
	values := make([]float64, 1+r.Intn(6))
	for i := range values {
		values[i] = []float64{-7, -1.5, 0, 1, 2, 2.5, 3, 10, 1e6, 1e-3}[r.Intn(10)]
	}
	switch {
	case r.Chance(8): // labels that are hard to tell apart, or hard to count with
		near := []float64{0.3, 0.1 + 0.2, math.Nextafter(0.3, 0), 1e17, 1e17 + 16, 1e-300, 2e-300, -1e300, 4294967296, 4294967297, 256, 9007199254740993, 9007199254740992}
		for i := range values {
			values[i] = near[r.Intn(len(near))]
		}
	case r.Chance(40): // more classes than fit in a byte
		n = 300 + r.Intn(500)
		values = make([]float64, 257+r.Intn(200))
		for i := range values {
			values[i] = float64(r.Intn(3000)-1000) / 2
		}
	}
	labels := func(k int) *mat.Dense {
		m := mat.NewDense(k, o, nil)
		m.Apply(func(_, _ int, _ float64) float64 { return values[r.Intn(len(values))] }, m)
		return m
	}
	L := labels(n)
	classes := make([][]float64, o)
	var all []float64
	for j := range classes {
		classes[j] = uniq(colv(L, j))
		all = append(all, classes[j]...)
	}
	all = uniq(all)
	pick := func(k int) *mat.Dense { // labels seen when fitting
		m := mat.NewDense(k, o, nil)
		m.Apply(func(_, j int, _ float64) float64 { return classes[j][r.Intn(len(classes[j]))] }, m)
		return m
	}
	callers := 1 + r.Intn(3)
	qs, xs := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	for k := range qs {
		rows := 1 + r.Intn(9)
		qs[k], xs[k] = pick(rows), trMatrix(r, rows, 2)
	}
	outs, others, invs, invOthers := make([]*mat.Dense, callers), make([]*mat.Dense, callers), make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	form := r.PickS("dense", "dense", "window", "opaque", "transposed")
	mi := func(m *mat.Dense) mat.Matrix { return formed(form, m) }
	neg, pos := 0., 1.
	if r.Bool() {
		neg, pos = []float64{-1, 0, 2, -.5}[r.Intn(4)], 3
	}
	LX := trMatrix(r, n, 2)
	kind := r.PickS("LabelEncoder", "LabelBinarizer", "OneHotEncoder", "MultiLabelBinarizer", "strings")
	c.Desc("%s, %d x %d labels of %v (%s), %d callers at the same time", kind, n, o, values, form, callers)
	c.Probe(kind)
	naming := r.PickS("c%g", "c%g", "a label with a long beginning %g", "%g and a long end that is the same", "Ünïcode-%g", "%[1]g\x00%[1]g", "%g")
	name := func(v float64) string { return fmt.Sprintf(naming, v) }
	names := func(m *mat.Dense) [][]string {
		k, _ := m.Dims()
		s := make([][]string, k)
		for i := range s {
			for j := 0; j < o; j++ {
				s[i] = append(s[i], name(m.At(i, j)))
			}
		}
		return s
	}
	code := func(cl []float64, v float64) int { return sort.SearchFloat64s(cl, v) }
	hot := func(q *mat.Dense, cls func(j int) []float64, neg, pos float64) *mat.Dense {
		k, _ := q.Dims()
		w := 0
		for j := 0; j < o; j++ {
			w += len(cls(j))
		}
		m := mat.NewDense(k, w, nil)
		for i := 0; i < k; i++ {
			at := 0
			for j := 0; j < o; j++ {
				for a := range cls(j) {
					v := neg
					if a == code(cls(j), q.At(i, j)) {
						v = pos
					}
					m.Set(i, at+a, v)
				}
				at += len(cls(j))
			}
		}
		return m
	}
	var strInv [][][]string
	var want func(q *mat.Dense) *mat.Dense
	unseen := mat.NewDense(1, o, nil)
	var unseenOut *mat.Dense
	for j := 0; j < o; j++ {
		unseen.Set(0, j, classes[j][r.Intn(len(classes[j]))]+.25)
	}
	c.Sim("encode and decode", func() {
		switch kind {
		case "LabelEncoder", "LabelBinarizer", "MultiLabelBinarizer":
			var t base.Transformer = pp.NewLabelEncoder()
			switch kind {
			case "LabelBinarizer":
				t = pp.NewLabelBinarizer(neg, pos)
			case "MultiLabelBinarizer":
				t = pp.NewMultiLabelBinarizer()
			}
			dense := func(m *mat.Dense) mat.Matrix {
				if kind == "MultiLabelBinarizer" {
					return cp(m) // documented: *mat.Dense or [][]string
				}
				return mi(m)
			}
			t.Fit(mi(LX), dense(L))
			together(callers, func(k int) {
				x, y := t.Transform(mi(xs[k]), dense(qs[k]))
				others[k], outs[k] = cp(x), cp(y)
				if mb, ok := t.(*pp.MultiLabelBinarizer); ok {
					x, y := mb.InverseTransform(x, y)
					invOthers[k], invs[k] = cp(x), cp(y.(*mat.Dense))
				} else {
					x, y = t.(pp.InverseTransformer).InverseTransform(x, y)
					invOthers[k], invs[k] = cp(x), cp(y)
				}
			})
			if kind == "LabelEncoder" {
				_, unseenOut = t.Transform(nil, mi(unseen))
			}
		case "OneHotEncoder":
			t := pp.NewOneHotEncoder()
			t.Fit(mi(L), mi(LX))
			together(callers, func(k int) {
				x, y := t.Transform(mi(qs[k]), mi(xs[k]))
				outs[k], others[k] = cp(x), cp(y)
				x, y = t.InverseTransform(x, y)
				invs[k], invOthers[k] = cp(x), cp(y)
			})
		case "strings":
			t := pp.NewMultiLabelBinarizer()
			t.Fit2(mi(LX), names(L))
			strInv = make([][][]string, callers)
			together(callers, func(k int) {
				x, y := t.Transform2(mi(xs[k]), names(qs[k]))
				others[k], outs[k] = cp(x), cp(y)
				x, s := t.InverseTransform(x, y)
				invOthers[k], strInv[k] = cp(x), s.([][]string)
			})
		}
	})
	switch kind {
	case "LabelEncoder":
		want = func(q *mat.Dense) *mat.Dense {
			return mapMat(q, func(i, j int, v float64) float64 { return float64(code(classes[j], v)) })
		}
		for j := 0; j < o; j++ {
			if v := unseen.At(0, j); code(classes[j], v) == len(classes[j]) || classes[j][code(classes[j], v)] != v {
				c.Check(unseenOut.At(0, j) == -1, "unseen-label", "LabelEncoder fitted on the classes %v encodes the unseen %v as %v, the code of another class", classes[j], v, unseenOut.At(0, j))
			}
		}
	case "LabelBinarizer":
		want = func(q *mat.Dense) *mat.Dense { return hot(q, func(j int) []float64 { return classes[j] }, neg, pos) }
	case "OneHotEncoder":
		want = func(q *mat.Dense) *mat.Dense { return hot(q, func(j int) []float64 { return classes[j] }, 0, 1) }
	case "MultiLabelBinarizer":
		want = func(q *mat.Dense) *mat.Dense { return hot(q, func(j int) []float64 { return all }, 0, 1) }
	}
	if kind == "strings" {
		var sorted []string
		for _, v := range all {
			sorted = append(sorted, name(v))
		}
		sort.Strings(sorted)
		for k, q := range qs {
			rows, _ := q.Dims()
			w := mat.NewDense(rows, o*len(all), nil)
			for i := 0; i < rows; i++ {
				for j := 0; j < o; j++ {
					w.Set(i, j*len(all)+sort.SearchStrings(sorted, name(q.At(i, j))), 1)
				}
			}
			diff := DiffDense(w, outs[k], 0)
			c.Check(diff == "", "code", "MultiLabelBinarizer of strings %v: %s", names(q), diff)
			c.Check(fmt.Sprint(strInv[k]) == fmt.Sprint(names(q)), "decode", "MultiLabelBinarizer decodes %v as %v", names(q), strInv[k])
		}
		return
	}
	for k, q := range qs {
		diff := DiffDense(want(q), outs[k], 0)
		c.Check(diff == "", "code", "%s fitted on %s (labels %g/%g): codes of %s: %s", kind, fmtMat(L), neg, pos, fmtMat(q), diff)
		diff = DiffDense(q, invs[k], 0)
		c.Check(diff == "", "decode", "%s fitted on %s: decoding the codes of %s: %s", kind, fmtMat(L), fmtMat(q), diff)
		for _, x := range []*mat.Dense{others[k], invOthers[k]} {
			diff = DiffDense(xs[k], x, 0)
			c.Check(diff == "", "other-side", "%s does not pass the other matrix through: %s", kind, diff)
		}
	}
}

func uniq(v []float64) []float64 {
	v = append([]float64(nil), v...)
	sort.Float64s(v)
	o := v[:0]
	for i, x := range v {
		if i == 0 || x != v[i-1] {
			o = append(o, x)
		}
	}
	return o
}
