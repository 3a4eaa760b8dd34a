//go:build go1.21

package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	ms "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"

	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C25", &Scenario{Name: "batches", Weight: 1, Race: true, F: c25batches})
	register("C26", &Scenario{Name: "columns", Weight: 1, F: c26columns})
	register("C27", &Scenario{Name: "shufflers", Weight: 2, Race: true, F: c27shufflers})
	register("C27", &Scenario{Name: "train-test-split", Weight: 1, F: c27split})
	register("C27", &Scenario{Name: "blobs", Weight: 1, Race: true, F: c27blobs})
	register("C27", &Scenario{Name: "regression", Weight: 1, F: c27regression})
	register("C28", &Scenario{Name: "pipelines", Weight: 3, F: c28pipelines})
}

// ---------------------------------------------------------------- C25

var rowPath = regexp.MustCompile(`^(.*?)[\(\[](\d+)(.*)$`)

// byRow addresses the leaves of an answer by row.
func byRow(ls []Leaf, rows []int, out map[string]Leaf) {
	for _, l := range ls {
		m := rowPath.FindStringSubmatch(l.Path)
		if m == nil {
			continue
		}
		i, _ := strconv.Atoi(m[2])
		r := -1
		if i < len(rows) {
			r = rows[i]
		}
		k := fmt.Sprintf("%s row %d %s", m[1], r, m[3])
		if _, dup := out[k]; dup {
			k += " again"
		}
		out[k] = l
	}
}

// c25batches asks one fitted model about all rows at once, and about parts of them (divided in some
// way, in some order, maybe by several goroutines), and compares row by row.
func c25batches(c *C) {
	in := c.inst(func(s *Subject) bool {
		switch s.Name {
		case "DBSCAN", "GaussianProcess", "Shuffler", "MultiLabelBinarizer":
			return false // answers for the training rows only
		}
		return true
	})
	if m, ok := in.New(1).(*pp.Normalizer); ok && m.Axis == 0 {
		return // the columns of the batch are what it works on
	}
	var qs []Query
	for _, q := range in.Queries {
		if q.Name != "Score" {
			qs = append(qs, q)
		}
	}
	if len(qs) == 0 {
		return
	}
	q := qs[c.R.Intn(len(qs))]
	d := in.unusual(c.R)
	n, _ := d.Q.Dims()
	if _, ok := in.New(1).(base.Transformer); ok && c.R.Bool() && d.X != nil && !d.X.IsEmpty() && !d.Q.IsEmpty() {
		// values met in training: edges of bins, quantiles, extremes
		rows, f := d.X.Dims()
		if _, fq := d.Q.Dims(); fq == f {
			for k := n * f / 2; k > 0; k-- {
				j := c.R.Intn(f)
				d.Q.Set(c.R.Intn(n), j, d.X.At(c.R.Intn(rows), j))
			}
			d = d.as(d.Form)
		}
	}
	perm := c.R.Perm(n)
	var parts [][]int
	for rest := perm; len(rest) > 0; {
		k := 1
		if c.R.Bool() {
			k = 1 + c.R.Intn(len(rest))
		}
		parts, rest = append(parts, rest[:k]), rest[k:]
	}
	conc := c.R.Bool()
	form := d.Form
	if c.R.Chance(3) {
		form = c.R.PickS(formNames...)
	}
	c.Desc("%s, data %s, %d query rows in %d parts%s, concurrent: %v", q.Name, d, n, len(parts), formName(form), conc)
	nj := c.njobs()
	dk := cpData(d)
	dp := make([]*Data, len(parts))
	for k, p := range parts {
		e := *d
		e.X, e.Y, e.Q, e.QY = cp(d.X), cp(d.Y), takeRows(d.Q, p), takeRows(d.QY, p)
		dp[k] = e.as(form)
	}
	var whole []Leaf
	got := make([][]Leaf, len(parts))
	c.Sim("whole and parts", func() {
		m := in.New(nj)
		in.Fit(m, dk)
		whole = q.F(m, dk)
		if conc {
			together(len(parts), func(k int) { got[k] = q.F(m, dp[k]) })
		} else {
			for k := range parts {
				got[k] = q.F(m, dp[k])
			}
		}
	})
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	want, have := map[string]Leaf{}, map[string]Leaf{}
	byRow(whole, all, want)
	for k := range parts {
		byRow(got[k], parts[k], have)
	}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range have {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		w, ok1 := want[k]
		h, ok2 := have[k]
		if !ok1 || !ok2 || w.IsF != h.IsF || w.S != h.S || w.IsF && !sameF(h.F, w.F, formTol(in)) {
			c.Fail("depends-on-other-rows", "%s (%s), %s: %s of %d rows at once and in parts %v give different answers for %s: %s and %s", in.Name, in.Desc, d, q.Name, n, parts, k, leafStr(w, ok1), leafStr(h, ok2))
		}
	}
	c.st.Checks += int64(len(keys))
}

func leafStr(l Leaf, ok bool) string {
	switch {
	case !ok:
		return "nothing"
	case l.IsF:
		return fmt.Sprint(l.F)
	}
	return l.S
}

// ---------------------------------------------------------------- C26

var perColumn = map[string]string{"MinMaxScaler": "X", "StandardScaler": "X", "RobustScaler": "X", "MaxAbsScaler": "X", "Imputer": "X", "KBinsDiscretizer": "X", "QuantileTransformer": "X",
	"PowerTransformer": "X", "OneHotEncoder": "X", "Binarizer": "X", "FunctionTransformer": "X", "LabelEncoder": "Y", "LabelBinarizer": "Y"}

func takeCol(m *mat.Dense, j int) *mat.Dense {
	n, _ := m.Dims()
	return mat.NewDense(n, 1, mat.Col(nil, j, m))
}

func hcat(ms []*mat.Dense) *mat.Dense {
	var out *mat.Dense
	for _, m := range ms {
		if out == nil {
			out = mat.DenseCopyOf(m)
			continue
		}
		n := &mat.Dense{}
		n.Augment(out, m)
		out = n
	}
	return out
}

func c26columns(c *C) {
	in := c.inst(func(s *Subject) bool { return perColumn[s.Name] != "" })
	d := in.Data(c.R)
	side := perColumn[in.Name]
	if side == "X" && c.R.Bool() {
		// columns of very different magnitudes
		for j := 0; j < d.F; j++ {
			s := c.R.PickF(1, 1e-8, 1e-4, 1e4, 1e8)
			for _, m := range []*mat.Dense{d.X, d.Q} {
				n, _ := m.Dims()
				for i := 0; i < n; i++ {
					m.Set(i, j, m.At(i, j)*s)
				}
			}
		}
		d.as(d.Form)
		d.Kind += ", columns of several magnitudes"
	}
	if m, ok := in.New(1).(*pp.Imputer); ok && m.Strategy != "median" && c.R.Chance(3) {
		// a column without any value
		j := c.R.Intn(d.F)
		n, _ := d.X.Dims()
		for i := 0; i < n; i++ {
			d.X.Set(i, j, math.NaN())
		}
		d.as(d.Form)
		d.Kind += ", a column without values"
	}
	c.Desc("data %s", d)
	trans := func(m interface{}, dk *Data, out, inv **mat.Dense) {
		in.Fit(m, dk)
		x, y := m.(base.Transformer).Transform(dk.mQ(), dk.mQY())
		x, y = cp(x), cp(y)
		*out = x
		if side == "Y" {
			*out = cp(y)
		}
		_, ok := m.(pp.InverseTransformer)
		if ok || in.Name == "KBinsDiscretizer" || in.Name == "PowerTransformer" {
			a, b := c31inverse(m.(base.Transformer), x, y)
			*inv = a
			if side == "Y" {
				*inv = b
			}
		}
	}
	var full, fullInv *mat.Dense
	dk := cpData(d)
	c.Sim("all columns", func() { trans(in.New(1), dk, &full, &fullInv) })
	k := d.F
	if side == "Y" {
		k = d.O
	}
	cols, invs := make([]*mat.Dense, k), make([]*mat.Dense, k)
	for j := 0; j < k; j++ {
		j := j
		e := *d
		e.X, e.Y, e.Q, e.QY = cp(d.X), cp(d.Y), cp(d.Q), cp(d.QY)
		if side == "X" {
			e.X, e.Q, e.F = takeCol(d.X, j), takeCol(d.Q, j), 1
		} else {
			e.Y, e.QY, e.O = takeCol(d.Y, j), takeCol(d.QY, j), 1
		}
		ej := e.as("")
		c.Ref("one column", func() { trans(in.New(1), ej, &cols[j], &invs[j]) })
	}
	diff := diffMat(hcat(cols), full, 1e-9)
	c.Check(diff == "", "columns-interfere", "%s (%s), %s: transforming %d columns of %s at once differs from transforming each alone: %s", in.Name, in.Desc, d, k, side, diff)
	if fullInv != nil {
		diff := diffMat(hcat(invs), fullInv, 1e-9)
		c.Check(diff == "", "columns-interfere", "%s (%s), %s: inverting %d columns of %s at once differs from inverting each alone: %s", in.Name, in.Desc, d, k, side, diff)
	}
}

// ---------------------------------------------------------------- C27

// tagged makes rows that name themselves in every element, of X as well as of Y.
func tagged(n, f, o int) (X, Y *mat.Dense) {
	X, Y = mat.NewDense(n, f, nil), mat.NewDense(n, o, nil)
	X.Apply(func(i, j int, _ float64) float64 { return float64(i) + float64(j)/64 }, X)
	Y.Apply(func(i, j int, _ float64) float64 { return 1000 + float64(i) + float64(j)/64 }, Y)
	return
}

// rowTags reads the rows' names back; "" if every row is whole and X and Y are in step.
func rowTags(X, Y *mat.Dense, f, o int) ([]int, string) {
	n, xf := dims(X)
	if yn, yo := dims(Y); yn != n || n > 0 && (xf != f || yo != o) {
		return nil, fmt.Sprintf("X is %d x %d and Y %d x %d", n, xf, yn, yo)
	}
	out := make([]int, n)
	for i := range out {
		t := int(math.Floor(X.At(i, 0)))
		out[i] = t
		for j := 0; j < f; j++ {
			if X.At(i, j) != float64(t)+float64(j)/64 {
				return nil, fmt.Sprintf("row %d of X is made of several rows: %v", i, X.RawRowView(i))
			}
		}
		for j := 0; j < o; j++ {
			if Y.At(i, j) != 1000+float64(t)+float64(j)/64 {
				return nil, fmt.Sprintf("row %d: X is row %d of the data and Y is %v", i, t, Y.RawRowView(i))
			}
		}
	}
	return out, ""
}

func missing(n int, tags []int) string {
	seen := make([]int, n)
	for _, t := range tags {
		if t < 0 || t >= n {
			return fmt.Sprintf("row %d does not exist", t)
		}
		seen[t]++
	}
	for t, k := range seen {
		if k != 1 {
			return fmt.Sprintf("row %d occurs %d times", t, k)
		}
	}
	return ""
}

func c27shufflers(c *C) {
	n, f, o := c.R.Big(1, 30), 1+c.R.Intn(4), 1+c.R.Intn(3)
	X, Y := tagged(n, f, o)
	d := &Data{X: X, Y: Y, N: n, F: f, O: o}
	if c.R.Bool() {
		d.as(c.R.PickS(formNames...))
	} else {
		d.as("")
	}
	callers := 1 + c.R.Intn(3)
	shared := c.R.Bool()
	kind := c.R.PickS("plain", "locked", "none")
	seed := c.R.Seed()
	if callers > 1 && shared {
		kind = "locked"
	}
	one := c.R.Bool() && callers > 1 // one fitted shuffler used by all
	c.Desc("%s, %d callers, source %s shared %v, one shuffler %v", d, callers, kind, shared, one)
	xs, ys := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	xi, yi := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	mk := func() base.Source {
		switch kind {
		case "plain":
			return base.NewSource(seed)
		case "locked":
			return base.NewLockedSource(seed)
		}
		return nil
	}
	c.Sim("shuffle", func() {
		var s base.Source
		if shared {
			s = mk()
		}
		shufs := make([]*pp.Shuffler, callers)
		for k := range shufs {
			shufs[k] = pp.NewShuffler()
			if shufs[k].RandomState = s; s == nil && kind != "none" {
				shufs[k].RandomState = mk()
			}
			if k > 0 && one {
				shufs[k] = shufs[0]
			}
		}
		if one {
			shufs[0].Fit(d.mX(), d.mY())
		}
		together(callers, func(k int) {
			m := shufs[k]
			if one {
				xs[k], ys[k] = m.Transform(d.mX(), d.mY())
			} else {
				xs[k], ys[k] = m.FitTransform(d.mX(), d.mY())
			}
			a, b := cp(xs[k]), cp(ys[k])
			if kind == "locked" {
				a, b = strided(a), strided(b)
			}
			xi[k], yi[k] = m.InverseTransform(a, b)
		})
	})
	for k := range xs {
		tags, bad := rowTags(xs[k], ys[k], f, o)
		if bad == "" {
			bad = missing(n, tags)
		}
		c.Check(bad == "", "rows-not-conserved", "Shuffler on %s, caller %d of %d: %s", d, k, callers, bad)
		tags, bad = rowTags(xi[k], yi[k], f, o)
		for i := 0; bad == "" && i < len(tags); i++ {
			if tags[i] != i {
				bad = fmt.Sprintf("row %d is row %d of the data", i, tags[i])
			}
		}
		c.Check(bad == "", "inverse", "Shuffler on %s, caller %d of %d, after InverseTransform: %s", d, k, callers, bad)
	}
}

func c27split(c *C) {
	n, f, o := c.R.Big(2, 40), 1+c.R.Intn(4), 1+c.R.Intn(3)
	X, Y := tagged(n, f, o)
	d := &Data{X: X, Y: Y, N: n, F: f, O: o}
	if c.R.Bool() {
		d.as(c.R.PickS(formNames...))
	} else {
		d.as("")
	}
	// at least one row on either side
	size := 0.0
	k := 1 + c.R.Intn(n-1)
	if c.R.Bool() && k > 1 {
		size = float64(k)
	} else {
		size = (float64(k) - 0.5) / float64(n)
	}
	seed := c.R.Seed()
	c.Desc("TrainTestSplit of %s, size %g", d, size)
	var r [4]*mat.Dense
	c.Sim("split", func() { r[0], r[1], r[2], r[3] = ms.TrainTestSplit(d.mX(), d.mY(), size, seed) })
	tr, bad := rowTags(r[0], r[2], f, o)
	if bad == "" {
		var te []int
		if te, bad = rowTags(r[1], r[3], f, o); bad == "" {
			if bad = missing(n, append(append([]int{}, tr...), te...)); bad == "" && len(te) != k {
				bad = fmt.Sprintf("%d test rows instead of %d", len(te), k)
			}
		}
	}
	c.Check(bad == "", "rows-not-conserved", "TrainTestSplit of %s with test size %g: %s", d, size, bad)
}

func c27blobs(c *C) {
	n, f, k := c.R.Big(1, 40), 1+c.R.Intn(3), 1+c.R.Intn(4)
	centers := mat.NewDense(k, f, nil)
	centers.Apply(func(i, j int, _ float64) float64 { return 1000*float64(i) + 7*float64(j) }, centers)
	shuffle := c.R.Chance(4) == false
	callers := 1 + c.R.Intn(3)
	kind := c.R.PickS("plain", "locked", "none")
	if callers > 1 {
		kind = c.R.PickS("locked", "none")
	}
	seed := c.R.Seed()
	std := c.R.PickF(0.1, 1)
	var ask interface{} = centers
	box := []float64{-10, 10}
	conf := datasets.MakeBlobsConfig{NSamples: n, NFeatures: f, ClusterStd: std, Shuffle: shuffle}
	given := !c.R.Chance(3)
	if !given { // centres drawn by the function, parameters left out
		std = 1e-3
		conf.ClusterStd, ask = std, k
		if c.R.Bool() {
			box = []float64{float64(c.R.Intn(5)), float64(6 + c.R.Intn(1000))}
			conf.CenterBox = box
		}
		if c.R.Chance(3) {
			ask, k = nil, 3
		}
		if c.R.Chance(3) {
			conf.NSamples, n = 0, 100
		}
		if c.R.Chance(3) {
			conf.NFeatures, f = 0, 2
		}
	}
	conf.Centers = ask
	none := !given && kind == "none" && c.R.Chance(3)
	if none {
		n, f, k, std, box, shuffle = 100, 2, 3, 1, []float64{-10, 10}, false
	}
	c.Desc("MakeBlobs n=%d f=%d centers=%d given=%v box=%v std=%g shuffle=%v callers=%d source=%s no configuration=%v", n, f, k, given, box, std, shuffle, callers, kind, none)
	xs, ys := make([]*mat.Dense, callers), make([]*mat.Dense, callers)
	c.Sim("blobs", func() {
		var s base.Source
		switch kind {
		case "plain":
			s = base.NewSource(seed)
		case "locked":
			s = base.NewLockedSource(seed)
		}
		together(callers, func(w int) {
			if none {
				xs[w], ys[w] = datasets.MakeBlobs(nil)
				return
			}
			mine := conf
			if s != nil {
				mine.RandomState = s
			}
			xs[w], ys[w] = datasets.MakeBlobs(&mine)
		})
	})
	for w := range xs {
		xn, xf := dims(xs[w])
		yn, yo := dims(ys[w])
		c.Check(xn == n && xf == f && yn == n && yo == 1, "shape", "MakeBlobs of %d samples, %d features: X is %d x %d, Y is %d x %d", n, f, xn, xf, yn, yo)
		seen := map[int][]float64{}
		for i := 0; i < n; i++ {
			l := int(ys[w].At(i, 0))
			ok := l >= 0 && l < k && float64(l) == ys[w].At(i, 0)
			if ok && !given && seen[l] == nil {
				seen[l] = xs[w].RawRowView(i)
			}
			for j := 0; ok && j < f; j++ {
				if v := xs[w].At(i, j); given {
					ok = math.Abs(v-centers.At(l, j)) < 100*std
				} else { // near the other rows of the label and in the box
					ok = math.Abs(v-seen[l][j]) < 40*std && v > box[0]-20*std && v < box[1]+20*std
				}
			}
			c.Check(ok, "out-of-step", "MakeBlobs (shuffle %v, %d callers, source %s): row %d is %v with label %g, which is not of the centre with that label", shuffle, callers, kind, i, xs[w].RawRowView(i), ys[w].At(i, 0))
		}
	}
}

func c27regression(c *C) {
	n, f, inf, o := c.R.Big(1, 20), 1+c.R.Intn(5), 1+c.R.Intn(6), 1+c.R.Intn(3)
	args := map[string]interface{}{"n_samples": n, "n_features": f, "n_informative": inf, "n_targets": o}
	bias := make([]float64, o)
	switch c.R.Intn(4) {
	case 1:
		for j := range bias {
			bias[j] = 3.5
		}
		args["bias"] = 3.5
	case 2:
		for j := range bias {
			bias[j] = float64(j) - 0.5
		}
		args["bias"] = append([]float64{}, bias...)
	case 3:
		for j := range bias {
			bias[j] = float64(j) - 0.5
		}
		args["bias"] = mat.NewDense(1, o, append([]float64{}, bias...))
	}
	seed := c.R.Seed()
	seeded := c.R.Bool()
	c.Desc("MakeRegression %v seeded=%v", args, seeded)
	var X, Y, W *mat.Dense
	c.Sim("regression", func() {
		if seeded {
			args["random_state"] = xrand.New(base.NewLockedSource(seed))
		}
		X, Y, W = datasets.MakeRegression(args)
	})
	if inf > f {
		inf = f
	}
	xn, xf := dims(X)
	yn, yo := dims(Y)
	wn, wo := dims(W)
	c.Check(xn == n && xf == f && yn == n && yo == o && wn == inf && wo == o, "shape", "MakeRegression: X %d x %d, Y %d x %d, coefficients %d x %d", xn, xf, yn, yo, wn, wo)
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			s := bias[j]
			for k := 0; k < inf; k++ {
				s += X.At(i, k) * W.At(k, j)
			}
			c.Check(sameF(Y.At(i, j), s, 1e-9), "out-of-step", "MakeRegression %v: y(%d,%d) is %g, the row of X and the coefficients give %g", args, i, j, Y.At(i, j), s)
		}
	}
}

// ---------------------------------------------------------------- C28

var chainable = map[string]func(r *Rng) (string, func() base.Transformer){
	"minmax": func(r *Rng) (string, func() base.Transformer) {
		lo := r.PickF(0, -1)
		return fmt.Sprintf("minmax[%g,1]", lo), func() base.Transformer { return pp.NewMinMaxScaler([]float64{lo, 1}) }
	},
	"standard": func(r *Rng) (string, func() base.Transformer) {
		return "standard", func() base.Transformer { return pp.NewStandardScaler() }
	},
	"robust": func(r *Rng) (string, func() base.Transformer) {
		return "robust", func() base.Transformer { return pp.NewDefaultRobustScaler() }
	},
	"pca": func(r *Rng) (string, func() base.Transformer) {
		return "pca", func() base.Transformer { return pp.NewPCA() }
	},
	"maxabs": func(r *Rng) (string, func() base.Transformer) {
		return "maxabs", func() base.Transformer { return pp.NewMaxAbsScaler() }
	},
	"normalizer": func(r *Rng) (string, func() base.Transformer) {
		norm := r.PickS("l1", "l2", "max")
		return "normalizer " + norm, func() base.Transformer { n := pp.NewNormalizer(); n.Norm = norm; return n }
	},
	"binarizer": func(r *Rng) (string, func() base.Transformer) {
		return "binarizer", func() base.Transformer { m := pp.NewBinarizer(); m.Threshold = .1; return m }
	},
	"kbins": func(r *Rng) (string, func() base.Transformer) {
		n := 2 + r.Intn(4)
		return fmt.Sprintf("kbins(%d)", n), func() base.Transformer {
			m := pp.NewKBinsDiscretizer(n)
			m.Encode, m.Strategy = "ordinal", "uniform"
			return m
		}
	},
	"imputer": func(r *Rng) (string, func() base.Transformer) {
		return "imputer", func() base.Transformer { return pp.NewImputer() }
	},
	"poly": func(r *Rng) (string, func() base.Transformer) {
		bias := r.Bool()
		return fmt.Sprintf("poly(2,%v)", bias), func() base.Transformer {
			m := pp.NewPolynomialFeatures(2)
			m.IncludeBias = bias
			return m
		}
	},
	"power": func(r *Rng) (string, func() base.Transformer) {
		return "power", func() base.Transformer { m := pp.NewPowerTransformer(); m.Standardize = true; return m }
	},
	"xfunc": func(r *Rng) (string, func() base.Transformer) {
		a := r.PickF(-1, .5, 3)
		return fmt.Sprintf("func %g*X", a), func() base.Transformer {
			return pp.NewFunctionTransformer(func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				x := mat.DenseCopyOf(X)
				x.Scale(a, x)
				return x, Y
			}, func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) { return X, Y })
		}
	},
}

// yStep is a step that changes the targets: a pipeline has to undo it when it predicts.
func yStep(r *Rng, classes bool) (string, func() base.Transformer) {
	if classes {
		return "labelencoder", func() base.Transformer { return pp.NewLabelEncoder() }
	}
	a, b := r.PickF(-2, .25, 10), r.PickF(0, -3, 100)
	apply := func(f func(v float64) float64) func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
		return func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			y := mat.DenseCopyOf(Y)
			y.Apply(func(_, _ int, v float64) float64 { return f(v) }, y)
			return X, y
		}
	}
	return fmt.Sprintf("func %g*Y%+g", a, b), func() base.Transformer {
		return pp.NewFunctionTransformer(apply(func(v float64) float64 { return a*v + b }), apply(func(v float64) float64 { return (v - b) / a }))
	}
}

var lastStep = map[string]bool{"LinearRegression": true, "KNeighborsRegressor": true, "KNeighborsClassifier": true, "Ridge": true, "Lasso": true, "NearestCentroid": true, "GaussianNB": true,
	"MLPRegressor": true, "SVR": true, "BayesianRidge": true, "LogisticRegression": true}

// c28pipelines compares a pipeline with its steps applied by hand.
func c28pipelines(c *C) {
	names := []string{"maxabs", "minmax", "pca", "robust", "standard"}
	if c.R.Chance(2) {
		names = append(names, "binarizer", "imputer", "kbins", "normalizer", "poly", "power", "xfunc")
	}
	var steps []func() base.Transformer
	var desc []string
	polys := 0
	for k := c.R.Range(0, 4); k > 0; k-- {
		name := names[c.R.Intn(len(names))]
		if name == "poly" {
			if polys++; polys > 1 {
				continue
			}
		}
		s, f := chainable[name](c.R)
		steps, desc = append(steps, f), append(desc, s)
	}
	in := c.inst(func(s *Subject) bool { return lastStep[s.Name] })
	if in.NonDet || in.Random && !in.Seeded {
		return
	}
	d := in.Data(c.R)
	if polys > 0 && (d.F > 6 || in.Name == "BayesianRidge") {
		return
	}
	if c.R.Chance(3) && in.Name != "LogisticRegression" && in.Name != "SVR" {
		// one step changes the targets
		s, f := yStep(c.R, in.Name == "KNeighborsClassifier" || in.Name == "NearestCentroid" || in.Name == "GaussianNB")
		k := c.R.Intn(len(steps) + 1)
		steps = append(steps[:k:k], append([]func() base.Transformer{f}, steps[k:]...)...)
		desc = append(desc[:k:k], append([]string{s}, desc[k:]...)...)
	}
	nested := 0
	if c.R.Chance(4) && len(steps) > 0 {
		nested = 1 + c.R.Intn(len(steps)) // the last steps are a pipeline of their own
	}
	viaTransform := c.R.Chance(4)
	named, fitTransform := c.R.Bool(), c.R.Chance(4)
	if d.X.RawMatrix().Rows < 2 {
		return
	}
	cloned := c.R.Bool()
	twice := c.R.Bool()
	refill := c.R.Bool()
	callers := 1 + c.R.Intn(3)
	c.Desc("pipeline %s, data %s, cloned %v, fitted twice %v, %d callers, query refilled %v, last %d nested, by Transform %v, named %v, FitTransform %v", strings.Join(desc, " "), d, cloned, twice, callers, refill, nested, viaTransform, named, fitTransform)
	nj := c.njobs()
	var want, wantX *mat.Dense
	var wantScore float64
	clsf := false
	d0 := cpData(d).as("")
	c.Ref("by hand", func() {
		X, Y := d0.X, d0.Y
		ts := make([]base.Transformer, len(steps))
		Q, QY := d0.Q, d0.QY
		for i, f := range steps {
			ts[i] = f()
			ts[i].Fit(X, Y)
			X, Y = ts[i].Transform(X, Y)
			Q, QY = ts[i].Transform(Q, QY)
		}
		m := in.New(1).(base.Predicter)
		m.Fit(X, Y)
		n, _ := Q.Dims()
		want = mat.NewDense(n, m.GetNOutputs(), nil)
		m.Predict(Q, want)
		wantScore = m.Score(Q, QY)
		nx, _ := X.Dims()
		wantX = mat.NewDense(nx, m.GetNOutputs(), nil)
		m.Predict(X, wantX)
		clsf = m.IsClassifier()
		for i := len(ts) - 1; i >= 0; i-- {
			if t, ok := ts[i].(pp.InverseTransformer); ok {
				_, want = t.InverseTransform(nil, want)
				_, wantX = t.InverseTransform(nil, wantX)
			}
		}
	})
	var got = make([]*mat.Dense, callers)
	var ret = make([]*mat.Dense, callers)
	var score = make([]float64, callers)
	var gotX *mat.Dense
	isCls := false
	dk, other := cpData(d), variant(c.R, d)
	c.Sim("pipeline", func() {
		fs := make([]base.Fiter, 0, len(steps)+1)
		for _, f := range steps {
			fs = append(fs, f())
		}
		fs = append(fs, in.New(nj).(base.Fiter))
		if k := len(fs) - 1 - nested; nested > 0 {
			fs = append(fs[:k:k], pipeline.MakePipeline(fs[k:]...))
		}
		var p base.Predicter = pipeline.MakePipeline(fs...)
		if named {
			ns := make([]pipeline.NamedStep, len(fs))
			for i := range fs {
				ns[i] = pipeline.NamedStep{Name: []string{"a", "b", "a"}[i%3], Fiter: fs[i]}
			}
			p = pipeline.NewPipeline(ns...)
		}
		if twice && in.Random == false {
			p.Fit(other.mX(), other.mY())
		}
		if cloned {
			p = p.PredicterClone()
		}
		if fitTransform {
			_, gotX = p.(*pipeline.Pipeline).FitTransform(dk.mX(), dk.mY())
		} else {
			p.Fit(dk.mX(), dk.mY())
		}
		isCls = p.IsClassifier()
		together(callers, func(k int) {
			n, _ := dk.Q.Dims()
			got[k] = mat.NewDense(n, p.GetNOutputs(), nil)
			if refill {
				// the same matrices are used for another question first
				q := cp(dk.Q)
				q.Scale(0.5, q)
				p.Predict(q, got[k])
				p.Score(q, dk.mQY())
				q.Copy(dk.Q)
				ret[k] = p.Predict(q, got[k])
				score[k] = p.Score(q, dk.mQY())
				return
			}
			if viaTransform {
				_, got[k] = p.(*pipeline.Pipeline).Transform(dk.mQ(), dk.mQY())
				ret[k] = got[k]
			} else {
				ret[k] = p.Predict(dk.mQ(), got[k])
			}
			score[k] = p.Score(dk.mQ(), dk.mQY())
		})
	})
	tol := math.Max(formTol(in), 1e-7)
	c.Check(isCls == clsf, "not-its-steps", "pipeline %s %s: IsClassifier is %v, its model's %v", strings.Join(desc, " "), in.Name, isCls, clsf)
	if fitTransform {
		diff := diffMat(wantX, gotX, tol)
		c.Check(diff == "", "not-its-steps", "pipeline %s %s (%s), %s: FitTransform differs from the predictions of the steps by hand: %s", strings.Join(desc, " "), in.Name, in.Desc, d, diff)
	}
	for k := range got {
		for _, m := range []*mat.Dense{got[k], ret[k]} {
			diff := diffMat(want, m, tol)
			c.Check(diff == "", "not-its-steps", "pipeline %s %s (%s), %s, caller %d: predictions differ from those of the steps by hand: %s", strings.Join(desc, " "), in.Name, in.Desc, d, k, diff)
		}
		c.Check(sameF(score[k], wantScore, tol), "not-its-steps", "pipeline %s %s (%s), %s, caller %d: score %g instead of %g", strings.Join(desc, " "), in.Name, in.Desc, d, k, score[k], wantScore)
	}
}
