//go:build go1.21

package main

import (
	"fmt"
	"math"
	"time"
	"verifsim"

	"github.com/pa-m/sklearn/base"
	ms "github.com/pa-m/sklearn/model_selection"
	"gonum.org/v1/gonum/mat"
)

// Stub estimator and splitter: the only parts of a simulated cross-validation or grid search that
// are not the real code. They record what they are given and compute a function of it that is
// sensitive to every row, its order, and the hyperparameters.

// recFit is one recorded Fit.
type recFit struct {
	id         int64
	p1         float64
	p2         int
	p3         string
	hash       uint64
	rows       []int // row numbers (column 0 of X)
	torn       bool
	beg, end   int64 // monotonic
	task       string
	clonedAt   int64
	predBeg    int64
	predEnd    int64
	scoreBeg   int64
	scoreEnd   int64
	predRows   []int
	nfit       int
	yHash      uint64
	nextAfter  int64 // same task, next recorded event after the score
	scoreValue float64
}

type recShared struct {
	scale, shift float64 // of the scores, 0: as they are
	nextID       int64
	fits         []*recFit
	clones       int64
	work         []int
	advance      []time.Duration
	fitOrig      int64 // fits of the caller's own estimator
	marks        []mark
}

type mark struct {
	task string
	time int64
}

//go:norace
func (s *recShared) newID() int64 { s.nextID++; return s.nextID }

//go:norace
func (s *recShared) add(f *recFit) { s.fits = append(s.fits, f) }

//go:norace
func (s *recShared) cloned() { s.clones++ }

//go:norace
func (s *recShared) origFit() { s.fitOrig++ }

//go:norace
func (s *recShared) mark() { s.marks = append(s.marks, mark{verifsim.TaskPath(), verifsim.MonoNow()}) }

// RecEst is the stub estimator.
type RecEst struct {
	P1       float64
	P2       int
	P3       string
	P4       bool
	P5       []int
	P6       interface{}
	P7       []string
	sh       *recShared
	orig     bool
	nout     int
	last     *recFit
	id       int64
	nfit     int
	clonedAt int64
}

// others are all the parameters but the first two
func (e *RecEst) others() string { return othersOf(e.P3, e.P4, e.P5, e.P6, e.P7) }

func othersOf(p3 string, p4 bool, p5 []int, p6 interface{}, p7 []string) string {
	if !p4 && p5 == nil && p6 == nil && p7 == nil {
		return p3
	}
	return fmt.Sprintf("%s %v %v %T %v %q", p3, p4, p5, p6, p6, p7)
}

func hmix(h uint64, f float64) uint64 { return mix64(h ^ math.Float64bits(f)) }

func rowsHash(m *mat.Dense, h uint64) uint64 {
	if m == nil || m.IsEmpty() {
		return h
	}
	r, c := m.Dims()
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			h = hmix(h, m.At(i, j))
		}
	}
	return h
}

func (e *RecEst) pause(k int64) {
	if len(e.sh.work) > 0 {
		yields(e.sh.work[int(k)%len(e.sh.work)])
	}
	if len(e.sh.advance) > 0 {
		verifsim.Advance(e.sh.advance[int(k*7+3)%len(e.sh.advance)])
	}
}

// Fit ...
func (e *RecEst) Fit(X, Y mat.Matrix) base.Fiter {
	if e.orig {
		e.sh.origFit()
	}
	f := &recFit{id: e.id, p1: e.P1, p2: e.P2, p3: e.others(), task: verifsim.TaskPath(), clonedAt: e.clonedAt}
	e.sh.mark()
	f.beg = verifsim.MonoNow()
	e.nfit++
	f.nfit = e.nfit
	xd, yd := mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	r, _ := xd.Dims()
	_, e.nout = yd.Dims()
	for i := 0; i < r; i++ {
		f.rows = append(f.rows, int(xd.At(i, 0)))
		verifsim.Y()
	}
	f.hash = rowsHash(xd, 1)
	f.yHash = rowsHash(yd, 2)
	e.pause(e.id + int64(f.rows[0]))
	// the training data must still be what it was
	f.torn = rowsHash(mat.DenseCopyOf(X), 1) != f.hash || rowsHash(mat.DenseCopyOf(Y), 2) != f.yHash
	e.last = f
	e.sh.add(f)
	f.end = verifsim.MonoNow()
	return e
}

func stubPred(trainX, trainY uint64, p1 float64, p2 int, p3 string, x0 float64, o int) float64 {
	h := mix64(trainX ^ mix64(trainY) ^ uint64(p2)*31)
	h = hmix(h, p1)
	for _, b := range []byte(p3) {
		h = mix64(h ^ uint64(b))
	}
	h = hmix(h, x0)
	h = mix64(h ^ uint64(o))
	return float64(h>>40) / (1 << 24)
}

// Predict ...
func (e *RecEst) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	f := e.last
	e.sh.mark()
	f.predBeg = verifsim.MonoNow()
	r, _ := X.Dims()
	_, oc := Y.Dims()
	for i := 0; i < r; i++ {
		x0 := X.At(i, 0)
		f.predRows = append(f.predRows, int(x0))
		for o := 0; o < oc; o++ {
			Y.Set(i, o, stubPred(f.hash, f.yHash, e.P1, e.P2, e.others(), x0, o))
		}
		verifsim.Y()
	}
	e.pause(e.id + 5)
	f.predEnd = verifsim.MonoNow()
	d, _ := Y.(*mat.Dense)
	return d
}

// Score ...
func (e *RecEst) Score(X, Y mat.Matrix) float64 { return 0 }

// GetNOutputs ...
func (e *RecEst) GetNOutputs() int { return e.nout }

// IsClassifier ...
func (e *RecEst) IsClassifier() bool { return false }

// PredicterClone ...
func (e *RecEst) PredicterClone() base.Predicter {
	c := &RecEst{P1: e.P1, P2: e.P2, P3: e.P3, P4: e.P4, P5: e.P5, P6: e.P6, P7: e.P7, sh: e.sh, id: e.sh.newID()}
	e.sh.cloned()
	yields(2)
	e.sh.mark()
	c.clonedAt = verifsim.MonoNow()
	return c
}

var _ base.Predicter = &RecEst{}

// stubScore is sensitive to every pair and its place; integer arithmetic, so it is exact.
func stubScore(yt, yp func(i, o int) float64, r, oc int) float64 {
	h := uint64(99)
	for i := 0; i < r; i++ {
		for o := 0; o < oc; o++ {
			h = hmix(h, yt(i, o))
			h = hmix(h, yp(i, o))
		}
	}
	return float64(h>>44) / (1 << 20)
}

// scorer returns the scorer passed to the library.
func (s *recShared) scorer(coarse bool) func(yt, yp mat.Matrix) float64 {
	return func(yt, yp mat.Matrix) float64 {
		s.mark()
		r, oc := yt.Dims()
		a := stubScore(yt.At, yp.At, r, oc)
		k := int64(a * 1000)
		if len(s.work) > 0 {
			yields(s.work[int(k)%len(s.work)])
		}
		if len(s.advance) > 0 {
			verifsim.Advance(s.advance[int(k)%len(s.advance)])
		}
		b := stubScore(yt.At, yp.At, r, oc)
		if a != b {
			return math.NaN() // the data changed while it was being scored
		}
		s.mark()
		if coarse {
			a = math.Floor(a * 3)
		}
		return s.graded(a)
	}
}

// graded gives a score the magnitude and sign drawn for the case.
func (s *recShared) graded(a float64) float64 {
	if s.scale != 0 {
		return a*s.scale + s.shift
	}
	return a
}

func expectScore(X, Y *mat.Dense, train, test []int, p1 float64, p2 int, p3 string, coarse bool) float64 {
	tx, ty := takeRows(X, train), takeRows(Y, train)
	hx, hy := rowsHash(tx, 1), rowsHash(ty, 2)
	_, oc := Y.Dims()
	s := stubScore(func(i, o int) float64 { return Y.At(test[i], o) },
		func(i, o int) float64 { return stubPred(hx, hy, p1, p2, p3, X.At(test[i], 0), o) }, len(test), oc)
	if coarse {
		s = math.Floor(s * 3)
	}
	return s
}

func takeRows(m *mat.Dense, idx []int) *mat.Dense {
	if len(idx) == 0 {
		return &mat.Dense{}
	}
	_, c := m.Dims()
	o := mat.NewDense(len(idx), c, nil)
	for i, k := range idx {
		for j := 0; j < c; j++ {
			o.Set(i, j, m.At(k, j))
		}
	}
	return o
}

// idData has the row number in column 0 of X; everything else is random but unique.
func idData(r *Rng, n, f, o int) (X, Y *mat.Dense) {
	X, Y = normMat(r, n, f, 1), normMat(r, n, o, 1)
	for i := 0; i < n; i++ {
		X.Set(i, 0, float64(i))
	}
	return
}

// FixedSplitter is a splitter with a given list of splits.
type FixedSplitter struct {
	Splits []ms.Split
	Buf    int
	Work   []int
}

// GetNSplits ...
func (s *FixedSplitter) GetNSplits(X, Y *mat.Dense) int { return len(s.Splits) }

// SplitterClone ...
func (s *FixedSplitter) SplitterClone() ms.Splitter { c := *s; return &c }

// Split ...
func (s *FixedSplitter) Split(X, Y *mat.Dense) chan ms.Split {
	ch := make(chan ms.Split, s.Buf)
	verifsim.Go(func() {
		for i, sp := range s.Splits {
			if len(s.Work) > 0 {
				yields(s.Work[i%len(s.Work)])
			}
			verifsim.Send(ch)(ms.Split{TrainIndex: append([]int(nil), sp.TrainIndex...), TestIndex: append([]int(nil), sp.TestIndex...)})
		}
		verifsim.Close(ch)
	})
	return ch
}

// randSplits makes disjoint train/test index sets of varied sizes in random order.
func randSplits(r *Rng, n, k int) []ms.Split {
	out := make([]ms.Split, k)
	for i := range out {
		p := r.Perm(n)
		t := r.Range(1, n-1)
		u := r.Range(1, n-t)
		if r.Bool() {
			u = n - t
		}
		out[i] = ms.Split{TrainIndex: p[:t:t], TestIndex: p[t : t+u : t+u]}
	}
	return out
}

func kfoldSource(r *Rng, seed uint64) (base.RandomState, string) {
	switch r.Intn(2) {
	case 0:
		return base.NewSource(seed), "NewSource"
	default:
		return base.NewLockedSource(seed), "NewLockedSource"
	}
}

func splitsString(s []ms.Split) string { return fmt.Sprintf("%v", s) }

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
