//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
	"verifsim"

	"github.com/pa-m/sklearn/base"
	ms "github.com/pa-m/sklearn/model_selection"
	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

func init() {
	register("C04", &Scenario{Name: "stub-estimator", Weight: 3, Race: true, F: c04stub},
		&Scenario{Name: "kfold", Weight: 2, Race: true, F: c04kfold})
	register("C16", &Scenario{Name: "timing", F: c16})
	register("C05", &Scenario{Name: "stub-grid", Weight: 3, Race: true, F: c05},
		&Scenario{Name: "parameter-grid", Weight: 1, F: c05grid})
	register("C06", &Scenario{Name: "stream", Weight: 3, Race: true, Leak: true, F: c06stream},
		&Scenario{Name: "clones", Weight: 2, Race: true, Leak: true, F: c06clones})
}

// ---------------------------------------------------------------- C04

// judgeCV checks a finished cross-validation against the splits in order.
func judgeCV(c *C, sh *recShared, res *ms.CrossValidateResult, X, Y, X0, Y0 *mat.Dense, splits []ms.Split, p1 float64, njobs int) {
	n := len(splits)
	c.Check(len(res.TestScore) == n && len(res.Estimator) == n && len(res.FitTime) == n && len(res.ScoreTime) == n, "result-length", "NJobs=%d: %d splits but %d scores, %d estimators, %d fit times, %d score times", njobs, n, len(res.TestScore), len(res.Estimator), len(res.FitTime), len(res.ScoreTime))
	c.Check(sh.fitOrig == 0, "caller-estimator-fitted", "NJobs=%d: the caller's own estimator was fitted %d times", njobs, sh.fitOrig)
	c.Check(len(sh.fits) == n, "fit-count", "NJobs=%d: %d splits but %d fits", njobs, n, len(sh.fits))
	ids := map[int64]bool{}
	for i, sp := range splits {
		e, ok := res.Estimator[i].(*RecEst)
		c.Check(ok && e != nil && e.last != nil, "estimator-missing", "NJobs=%d: estimator %d is not a fitted copy of the caller's", njobs, i)
		f := e.last
		c.Check(!ids[e.id], "estimator-shared", "NJobs=%d: estimator %d is also another fold's", njobs, i)
		ids[e.id] = true
		c.Check(f.nfit == 1, "fit-twice", "NJobs=%d: estimator %d was fitted %d times", njobs, i, f.nfit)
		c.Check(!f.torn, "torn-training-data", "NJobs=%d: the training data of fold %d changed while it was being fitted", njobs, i)
		c.Check(sameInts(f.rows, sp.TrainIndex), "wrong-training-rows", "NJobs=%d: estimator %d was fitted on rows %v, split %d has training rows %v", njobs, i, f.rows, i, sp.TrainIndex)
		c.Check(f.hash == rowsHash(takeRows(X0, sp.TrainIndex), 1) && f.yHash == rowsHash(takeRows(Y0, sp.TrainIndex), 2), "wrong-training-data", "NJobs=%d: estimator %d got altered training data", njobs, i)
		c.Check(sameInts(f.predRows, sp.TestIndex), "wrong-test-rows", "NJobs=%d: estimator %d predicted rows %v, split %d has test rows %v", njobs, i, f.predRows, i, sp.TestIndex)
		want := expectScore(X0, Y0, sp.TrainIndex, sp.TestIndex, p1, 0, "", false)
		c.Check(res.TestScore[i] == want, "wrong-score", "NJobs=%d: score %d is %v, split %d scores %v", njobs, i, res.TestScore[i], i, want)
	}
	c.Check(DiffDense(X, X0, 0) == "" && DiffDense(Y, Y0, 0) == "", "data-modified", "NJobs=%d: the caller's data was modified", njobs)
	judgeRanking(c, res)
}

// judgeRanking sorts a result, which is to order the folds by score, best first, and keep what belongs to
// a fold together.
func judgeRanking(c *C, res *ms.CrossValidateResult) {
	type fold struct {
		score    float64
		fit, sco time.Duration
	}
	of := map[base.Predicter]fold{}
	for i, e := range res.Estimator {
		res.FitTime[i], res.ScoreTime[i] = time.Duration(2*i+1), time.Duration(1000+i)
		of[e] = fold{res.TestScore[i], res.FitTime[i], res.ScoreTime[i]}
	}
	if c.R.Bool() {
		sort.Sort(res)
	} else {
		sort.Stable(*res)
	}
	seen := map[base.Predicter]bool{}
	for i, e := range res.Estimator {
		c.Check(of[e] == fold{res.TestScore[i], res.FitTime[i], res.ScoreTime[i]} && !seen[e], "ranking-mixes-folds", "sorted by score, place %d holds score %v, fit time %d, score time %d and an estimator of score %v, fit time %d, score time %d", i, res.TestScore[i], res.FitTime[i], res.ScoreTime[i], of[e].score, of[e].fit, of[e].sco)
		seen[e] = true
		c.Check(i == 0 || res.TestScore[i] <= res.TestScore[i-1], "ranking-order", "sorted by score, place %d holds %v after %v", i, res.TestScore[i], res.TestScore[max(i-1, 0)])
	}
}

func c04stub(c *C) {
	r := c.R
	n, f, o, k := r.Range(2, 24), r.Range(1, 4), r.Range(1, 3), r.Range(1, 9)
	if r.Chance(25) {
		n, k = r.Range(25, 150), r.Range(10, 40)
	}
	X0, Y0 := idData(r, n, f, o)
	splits := randSplits(r, n, k)
	work := []int{r.Intn(4), r.Intn(30), r.Intn(100), r.Intn(10), 0}
	buf, swork := r.Intn(4), []int{r.Intn(3), r.Intn(40), 0}
	useStride := r.Bool()
	c.Desc("n=%d f=%d o=%d splits=%d strided=%v", n, f, o, k, useStride)
	for rep := 0; rep < 4; rep++ {
		njobs := c.S.PickI(-1, 0, 1, 2, 3, 4, 8, 20)
		X, Y := cp(X0), cp(Y0)
		if useStride {
			X, Y = strided(X0), strided(Y0)
		}
		sh := &recShared{work: work}
		est := &RecEst{P1: 1.5, sh: sh, orig: true}
		var res ms.CrossValidateResult
		c.Sim(fmt.Sprintf("cv njobs=%d", njobs), func() {
			res = ms.CrossValidate(est, X, Y, nil, sh.scorer(false), &FixedSplitter{Splits: splits, Buf: buf, Work: swork}, njobs)
		})
		judgeCV(c, sh, &res, X, Y, X0, Y0, splits, 1.5, njobs)
		c.Check(est.P1 == 1.5 && est.last == nil, "caller-estimator-modified", "the caller's estimator was modified")
	}
}

// tapSplitter records the splits a real splitter produced.
type tapSplitter struct {
	ms.Splitter
	got   *[]ms.Split
	calls *int
}

func (t *tapSplitter) Split(X, Y *mat.Dense) chan ms.Split {
	*t.calls++
	in := t.Splitter.Split(X, Y)
	out := make(chan ms.Split)
	verifsim.Go(func() {
		for {
			sp, ok := verifsim.Recv2(in)
			if !ok {
				break
			}
			*t.got = append(*t.got, ms.Split{TrainIndex: append([]int(nil), sp.TrainIndex...), TestIndex: append([]int(nil), sp.TestIndex...)})
			verifsim.Send(out)(sp)
		}
		verifsim.Close(out)
	})
	return out
}

func c04kfold(c *C) {
	r := c.R
	n, f, o, k := r.Range(3, 30), r.Range(1, 4), r.Range(1, 2), r.Range(2, 6)
	if r.Chance(25) {
		n, k = r.Range(30, 160), r.Range(7, 30)
	}
	if k > n-1 {
		k = n - 1
	}
	X0, Y0 := idData(r, n, f, o)
	shuffle := r.Bool()
	seed := r.Seed()
	zero := r.Chance(5) && n >= 3 // default number of splits
	nilcv := r.Chance(8)
	work := []int{r.Intn(4), r.Intn(30), r.Intn(100), 0}
	c.Desc("KFold n=%d k=%d shuffle=%v seed=%d default-splits=%v nil-cv=%v", n, k, shuffle, seed, zero, nilcv)
	for rep := 0; rep < 4; rep++ {
		njobs := c.S.PickI(-1, 0, 1, 2, 3, 8)
		X, Y := cp(X0), cp(Y0)
		sh := &recShared{work: work}
		est := &RecEst{P1: 2.5, sh: sh, orig: true}
		var res ms.CrossValidateResult
		var got []ms.Split
		calls := 0
		c.Sim(fmt.Sprintf("cv njobs=%d", njobs), func() {
			kf := &ms.KFold{NSplits: k, Shuffle: shuffle, RandomState: base.NewSource(seed)}
			if zero {
				kf.NSplits = 0
			}
			if nilcv {
				res = ms.CrossValidate(est, X, Y, nil, sh.scorer(false), nil, njobs)
				return
			}
			res = ms.CrossValidate(est, X, Y, nil, sh.scorer(false), &tapSplitter{kf, &got, &calls}, njobs)
		})
		if nilcv {
			c.Check(len(res.TestScore) == 3 && len(sh.fits) == 3, "default-cv", "without a splitter: %d scores and %d fits, default is 3 splits", len(res.TestScore), len(sh.fits))
			for i := range res.TestScore {
				e := res.Estimator[i].(*RecEst)
				want := expectScore(X0, Y0, e.last.rows, e.last.predRows, 2.5, 0, "", false)
				c.Check(res.TestScore[i] == want && !e.last.torn, "wrong-score", "fold %d: score %v, expected %v", i, res.TestScore[i], want)
			}
			continue
		}
		c.Check(calls == 1, "split-calls", "the splitter was asked %d times", calls)
		if zero {
			k = 3
		}
		c.Check(len(got) == k, "split-count", "splitter of %d splits produced %d", k, len(got))
		judgeCV(c, sh, &res, X, Y, X0, Y0, got, 2.5, njobs)
	}
}

// ---------------------------------------------------------------- C16

func c16(c *C) {
	r := c.R
	c.Clock = true
	n, k := r.Range(4, 16), r.Range(1, 8)
	X0, Y0 := idData(r, n, 2, 1)
	splits := randSplits(r, n, k)
	adv := make([]time.Duration, 7)
	for i := range adv {
		adv[i] = time.Duration(r.PickI(0, 1000, 1e6, 5e7, 1e9, 3e9, 9e10, 1.3e14) + r.Intn(100000))
	}
	work := []int{0, r.Intn(20), r.Intn(200)}
	c.Desc("n=%d splits=%d durations=%v", n, k, adv)
	for rep := 0; rep < 4; rep++ {
		njobs := c.S.PickI(-1, 1, 1, 2, 3, 8)
		sh := &recShared{work: work, advance: adv}
		est := &RecEst{P1: 1, sh: sh, orig: true}
		var res ms.CrossValidateResult
		var tRet int64
		c.Sim(fmt.Sprintf("cv njobs=%d", njobs), func() {
			res = ms.CrossValidate(est, cp(X0), cp(Y0), nil, sh.scorer(false), &FixedSplitter{Splits: splits}, njobs)
			tRet = verifsim.MonoNow()
			sh.mark()
		})
		c.Check(len(res.FitTime) == k && len(res.ScoreTime) == k, "result-length", "%d splits, %d fit times, %d score times", k, len(res.FitTime), len(res.ScoreTime))
		for i := range splits {
			e, ok := res.Estimator[i].(*RecEst)
			c.Check(ok && e.last != nil, "estimator-missing", "estimator %d missing", i)
			f := e.last
			ft, st := int64(res.FitTime[i]), int64(res.ScoreTime[i])
			// fitting: at least from the start to the end of Fit, at most from the moment the
			// copy was made to the moment prediction began
			c.Check(ft >= 0 && st >= 0, "negative-time", "NJobs=%d: fold %d has fit time %v and score time %v", njobs, i, res.FitTime[i], res.ScoreTime[i])
			c.Check(ft >= f.end-f.beg, "fit-time-short", "NJobs=%d: fold %d took %v to fit, reported %v", njobs, i, time.Duration(f.end-f.beg), res.FitTime[i])
			c.Check(ft <= f.predBeg-f.clonedAt, "fit-time-long", "NJobs=%d: fold %d: %v passed from copying the estimator to predicting, reported fit time %v", njobs, i, time.Duration(f.predBeg-f.clonedAt), res.FitTime[i])
			// scoring: the marks of this task after predBeg are scorer begin, scorer end, next event
			var after []int64
			for _, m := range sh.marks {
				if m.task == f.task && m.time >= f.predEnd {
					after = append(after, m.time)
				}
			}
			sort.Slice(after, func(a, b int) bool { return after[a] < after[b] })
			// skip marks equal to predEnd that belong to the prediction itself: none are made there
			if len(after) >= 2 {
				scoreEnd := after[1]
				upper := tRet
				if len(after) >= 3 && after[2] < tRet {
					upper = after[2]
				}
				c.Check(st >= scoreEnd-f.predBeg, "score-time-short", "NJobs=%d: fold %d took %v to predict and score, reported %v", njobs, i, time.Duration(scoreEnd-f.predBeg), res.ScoreTime[i])
				c.Check(st <= upper-f.end, "score-time-long", "NJobs=%d: fold %d: at most %v passed between the end of fitting and the end of scoring, reported score time %v", njobs, i, time.Duration(upper-f.end), res.ScoreTime[i])
				c.Probe("score time bounded on both sides")
			} else {
				c.Check(st >= f.predEnd-f.predBeg && st <= tRet-f.end, "score-time", "NJobs=%d: fold %d: reported score time %v outside [%v,%v]", njobs, i, res.ScoreTime[i], time.Duration(f.predEnd-f.predBeg), time.Duration(tRet-f.end))
			}
		}
		if njobs != 1 && k > 1 {
			c.Probe("folds timed concurrently")
		}
	}
}

// ---------------------------------------------------------------- C05

type combo struct {
	p1 float64
	p2 int
	p3 string
}

func c05(c *C) {
	r := c.R
	n := r.Range(4, 16)
	X0, Y0 := idData(r, n, 2, r.Range(1, 2))
	grid := map[string][]interface{}{}
	np := r.Range(1, 3)
	names := []string{"P1", "P2", "P3", "P4", "P5", "P6", "P7"}
	perm := r.Perm(len(names))
	used := map[string]bool{}
	key := map[string]string{} // upper and lower case do not matter
	for _, name := range names {
		key[name] = name
		if r.Chance(4) {
			key[name] = strings.ToLower(name)
		}
	}
	total := 1
	for i := 0; i < np; i++ {
		name := names[perm[i]]
		used[name] = true
		m := r.Range(1, 4)
		if name == "P4" {
			m = r.Range(1, 2)
		}
		total *= m
		odd := r.Intn(5)
		var vals []interface{}
		for j := 0; j < m; j++ {
			switch name {
			case "P1":
				switch r.Intn(4) {
				case 0, 1:
					vals = append(vals, float64(j)+0.25)
				case 2:
					vals = append(vals, j+10) // an int for a float field
				default:
					vals = append(vals, float32(j)+20.5) // a short float
				}
			case "P2":
				vals = append(vals, j*3+1)
			case "P3":
				vals = append(vals, fmt.Sprintf("v%d", j))
			case "P4":
				vals = append(vals, j == 1)
			case "P5":
				vals = append(vals, make([]int, j+1))
			case "P6":
				vals = append(vals, []interface{}{1, 1.0, "1", []float64{1}, true}[(j+odd)%5])
			case "P7":
				vals = append(vals, []string{"x", fmt.Sprint(j)})
			}
		}
		grid[key[name]] = vals
	}
	coarse := r.Bool() // coarse scores make ties
	lower := r.Bool()
	scale, shift := 0., 0.
	if r.Chance(3) { // tiny, huge and negative scores
		scale, shift = r.PickF(1e-13, 1e-200, 1e12, -1, 1e-300), r.PickF(0, 0, 0, -3)
	}
	mode := r.Intn(3) // fixed splits, seeded KFold, default
	k := r.Range(2, 4)
	splits := randSplits(r, n, k)
	kseed := r.Seed()
	work := []int{0, r.Intn(20), r.Intn(80)}
	c.Desc("n=%d grid=%v lower=%v ties=%v scores*%g%+g cv-mode=%d", n, grid, lower, coarse, scale, shift, mode)
	asF := func(v interface{}) float64 {
		switch x := v.(type) {
		case int:
			return float64(x)
		case float64:
			return x
		case float32:
			return float64(x)
		}
		return math.NaN()
	}
	get := func(m map[string]interface{}, d combo) combo {
		if v, ok := m[key["P1"]]; ok {
			d.p1 = asF(v)
		}
		if v, ok := m[key["P2"]]; ok {
			d.p2 = v.(int)
		}
		var e RecEst
		e.P3 = d.p3
		if v, ok := m[key["P3"]]; ok {
			e.P3 = v.(string)
		}
		if v, ok := m[key["P4"]]; ok {
			e.P4 = v.(bool)
		}
		if v, ok := m[key["P5"]]; ok {
			e.P5 = v.([]int)
		}
		if v, ok := m[key["P6"]]; ok {
			e.P6 = v
		}
		if v, ok := m[key["P7"]]; ok {
			e.P7 = v.([]string)
		}
		d.p3 = e.others()
		return d
	}
	dflt := combo{7.75, -4, "base"}
	var first *ms.GridSearchCV
	var firstBest uint64
	for rep := 0; rep < 5; rep++ {
		njobs := c.S.PickI(-1, 0, 1, 2, 3, 8)
		X, Y := cp(X0), cp(Y0)
		sh := &recShared{work: work, scale: scale, shift: shift}
		est := &RecEst{P1: dflt.p1, P2: dflt.p2, P3: dflt.p3, sh: sh, orig: true}
		g := &ms.GridSearchCV{Estimator: est, ParamGrid: grid, Scorer: sh.scorer(coarse), NJobs: njobs, LowerScoreIsBetter: lower}
		var expect []ms.Split
		run := func() {
			switch mode {
			case 0:
				g.CV = &FixedSplitter{Splits: splits}
				expect = splits
			case 1:
				g.CV = &ms.KFold{NSplits: k, Shuffle: true, RandomState: base.NewSource(kseed)}
				ref := &ms.KFold{NSplits: k, Shuffle: true, RandomState: base.NewSource(kseed)}
				expect = drain(ref.Split(X, Y))
			default:
				g.RandomState = base.NewLockedSource(kseed)
				ref := &ms.KFold{NSplits: 3, Shuffle: true, RandomState: base.NewLockedSource(kseed)}
				expect = drain(ref.Split(X, Y))
			}
			g.Fit(X, Y)
		}
		if rep == 0 {
			c.Ref("grid search", run)
		} else {
			c.Sim(fmt.Sprintf("grid search njobs=%d", njobs), run)
		}
		// structure
		c.Check(len(g.CVResults) == np+1, "columns", "%d result columns for %d parameters", len(g.CVResults), np)
		for name, col := range g.CVResults {
			c.Check(len(col) == total, "column-length", "column %s has %d entries for %d combinations", name, len(col), total)
		}
		seen := map[combo]int{}
		for i := 0; i < total; i++ {
			params := map[string]interface{}{}
			for name := range grid {
				v := g.CVResults[name][i]
				c.Check(v != nil, "column-hole", "NJobs=%d: %s[%d] is missing", njobs, name, i)
				params[name] = v
			}
			cb := get(params, dflt)
			seen[cb]++
			want := 0.
			for _, sp := range expect {
				want += sh.graded(expectScore(X0, Y0, sp.TrainIndex, sp.TestIndex, cb.p1, cb.p2, cb.p3, coarse))
			}
			want /= float64(len(expect))
			sc, ok := g.CVResults["score"][i].(float64)
			c.Check(ok, "column-hole", "score[%d] is missing", i)
			c.Check(math.Abs(sc-want) <= 1e-12*math.Max(math.Abs(shift), math.Max(math.Abs(sc), math.Abs(want))), "score-mismatch", "NJobs=%d: row %d has parameters %v and score %v, but these parameters score %v on the splits", njobs, i, params, sc, want)
		}
		c.Check(len(seen) == total, "grid-coverage", "NJobs=%d: %d distinct combinations of %d", njobs, len(seen), total)
		// every combination fitted once per split
		per := map[combo]map[uint64]int{}
		for _, f := range sh.fits {
			cb := combo{f.p1, f.p2, f.p3}
			if per[cb] == nil {
				per[cb] = map[uint64]int{}
			}
			per[cb][f.hash]++
			c.Check(!f.torn, "torn-training-data", "NJobs=%d: training data changed during a fit", njobs)
		}
		wantHash := map[uint64]int{}
		for _, sp := range expect {
			wantHash[rowsHash(takeRows(X0, sp.TrainIndex), 1)]++
		}
		c.Check(len(sh.fits) == total*len(expect), "fit-count", "NJobs=%d: %d fits for %d combinations and %d splits", njobs, len(sh.fits), total, len(expect))
		for cb := range seen {
			for h, m := range wantHash {
				c.Check(per[cb][h] == m, "evaluation-count", "NJobs=%d: combination %+v was fitted %d times on a split, expected %d", njobs, cb, per[cb][h], m)
			}
		}
		c.Check(sh.fitOrig == 0 && est.P1 == dflt.p1 && est.P2 == dflt.p2 && est.others() == dflt.p3, "caller-estimator-modified", "NJobs=%d: the caller's estimator was changed or fitted", njobs)
		c.Check(DiffDense(X, X0, 0) == "" && DiffDense(Y, Y0, 0) == "", "data-modified", "NJobs=%d: the caller's data was modified", njobs)
		// optimum
		best := g.CVResults["score"][0].(float64)
		for _, s := range g.CVResults["score"] {
			v := s.(float64)
			if lower && v < best || !lower && v > best {
				best = v
			}
		}
		c.Check(g.BestIndex >= 0 && g.BestIndex < total, "best-index", "BestIndex=%d", g.BestIndex)
		c.Check(g.CVResults["score"][g.BestIndex].(float64) == best && g.BestScore == best, "not-optimal", "NJobs=%d: best score reported %v at index %d (%v), optimum of the column is %v", njobs, g.BestScore, g.BestIndex, g.CVResults["score"][g.BestIndex], best)
		for name := range grid {
			c.Check(fmt.Sprint(g.BestParams[name]) == fmt.Sprint(g.CVResults[name][g.BestIndex]), "best-params", "NJobs=%d: BestParams[%s]=%v but the column has %v", njobs, name, g.BestParams[name], g.CVResults[name][g.BestIndex])
		}
		be, ok := g.BestEstimator.(*RecEst)
		c.Check(ok && be.last != nil, "best-estimator", "no fitted best estimator")
		bc := get(g.BestParams, dflt)
		c.Check(be.P1 == bc.p1 && be.P2 == bc.p2 && be.others() == bc.p3 && be.last.p1 == bc.p1 && be.last.p2 == bc.p2 && be.last.p3 == bc.p3, "best-estimator", "NJobs=%d: the best estimator has parameters %v %v %v, best parameters are %+v", njobs, be.P1, be.P2, be.others(), bc)
		c.Check(wantHash[be.last.hash] > 0, "best-estimator", "NJobs=%d: the best estimator was not fitted on one of the splits", njobs)
		if first == nil {
			first, firstBest = g, be.last.hash
			continue
		}
		c.Check(g.BestIndex == first.BestIndex, "unstable-best", "NJobs=%d: best index %d, in the sequential run %d", njobs, g.BestIndex, first.BestIndex)
		c.Check(firstBest == be.last.hash, "unstable-best", "NJobs=%d: the best estimator is another fold's than in the sequential run", njobs)
		for name, col := range first.CVResults {
			for i := range col {
				c.Check(fmt.Sprint(col[i]) == fmt.Sprint(g.CVResults[name][i]), "unstable-results", "NJobs=%d: %s[%d] is %v, in the sequential run %v", njobs, name, i, g.CVResults[name][i], col[i])
			}
		}
	}
}

func drain(ch chan ms.Split) (out []ms.Split) {
	for {
		s, ok := verifsim.Recv2(ch)
		if !ok {
			return
		}
		out = append(out, s)
	}
}

func c05grid(c *C) {
	r := c.R
	grid := map[string][]interface{}{}
	total := 1
	for i, np := 0, r.Range(1, 6); i < np; i++ {
		m := r.Range(1, 4)
		total *= m
		for j := 0; j < m; j++ {
			grid[fmt.Sprintf("k%d", i)] = append(grid[fmt.Sprintf("k%d", i)], j)
		}
	}
	c.Desc("ParameterGrid of %d keys, %d combinations", len(grid), total)
	var ref []string
	for rep := 0; rep < 4; rep++ {
		var out []map[string]interface{}
		run := func() { out = ms.ParameterGrid(grid) }
		if rep == 0 {
			c.Ref("ParameterGrid", run)
		} else {
			cfg := c.SimCfg()
			cfg.PMap = 256
			c.SimWith("ParameterGrid", cfg, run)
		}
		c.Check(len(out) == total, "grid-size", "%d combinations instead of %d", len(out), total)
		seen := map[string]bool{}
		for i, m := range out {
			s := fmt.Sprint(m)
			c.Check(len(m) == len(grid), "grid-keys", "combination %d has %d keys of %d", i, len(m), len(grid))
			c.Check(!seen[s], "grid-duplicate", "combination %s twice", s)
			seen[s] = true
			if rep > 0 {
				c.Check(ref[i] == s, "grid-order", "combination %d is %s, in another run %s", i, s, ref[i])
			} else {
				ref = append(ref, s)
			}
		}
	}
}

// ---------------------------------------------------------------- C06

func c06judge(c *C, what string, n, nsplits int, splits []ms.Split) {
	c.Check(len(splits) == nsplits, "split-count", "%s: %d splits delivered, expected %d", what, len(splits), nsplits)
	min, max, sum := n+1, -1, 0
	for i, sp := range splits {
		cnt := make([]int, n)
		for _, part := range [][]int{sp.TrainIndex, sp.TestIndex} {
			for _, k := range part {
				c.Check(k >= 0 && k < n, "bad-index", "%s: split %d contains row %d of %d", what, i, k, n)
				cnt[k]++
			}
		}
		for k, m := range cnt {
			c.Check(m == 1, "not-a-partition", "%s: split %d contains row %d %d times (train %v test %v)", what, i, k, m, sp.TrainIndex, sp.TestIndex)
		}
		t := len(sp.TestIndex)
		sum += t
		if t < min {
			min = t
		}
		if t > max {
			max = t
		}
	}
	c.Check(sum == n, "test-sizes", "%s: test parts add up to %d of %d rows", what, sum, n)
	c.Check(max-min <= 1, "test-sizes", "%s: test part sizes range from %d to %d", what, min, max)
}

func newKFold(k int, shuffle bool, kind int, seed uint64) *ms.KFold {
	kf := &ms.KFold{NSplits: k, Shuffle: shuffle}
	switch kind {
	case 0:
		kf.RandomState = base.NewSource(seed)
	case 1:
		kf.RandomState = base.NewLockedSource(seed)
	case 2:
		kf.RandomState = xrand.NewSource(seed)
	}
	return kf
}

func c06stream(c *C) {
	r := c.R
	n := r.Range(1, 40)
	k := r.Range(-1, 12)
	if r.Chance(25) {
		n, k = r.Range(41, 1200), r.Range(3, 60)
	}
	shuffle := r.Bool()
	kind := r.Intn(4)
	seed := r.Seed()
	consumers := r.PickI(1, 1, 2, 3)
	X, Y := idData(r, n, 2, 1)
	work := []int{0, r.Intn(10), r.Intn(60), r.Intn(3)}
	stop := r.Chance(4)
	c.Desc("KFold n=%d NSplits=%d shuffle=%v source=%d consumers=%d", n, k, shuffle, kind, consumers)
	_ = stop
	for rep := 0; rep < 5; rep++ {
		cfg := c.SimCfg()
		if cfg.MeanQ > 30 {
			cfg.MeanQ = 30
		}
		got := make([][]ms.Split, consumers)
		copies := make([][]ms.Split, consumers)
		ns := 0
		c.SimWith("stream", cfg, func() {
			kf := newKFold(k, shuffle, kind, seed)
			ch := kf.Split(X, Y)
			ns = kf.GetNSplits(X, Y)
			var wg verifsim.WaitGroup
			for i := 0; i < consumers; i++ {
				i := i
				wg.Add(1)
				verifsim.Go(func() {
					for {
						sp, ok := verifsim.Recv2(ch)
						if !ok {
							break
						}
						got[i] = append(got[i], sp)
						copies[i] = append(copies[i], ms.Split{TrainIndex: append([]int(nil), sp.TrainIndex...), TestIndex: append([]int(nil), sp.TestIndex...)})
						yields(work[len(got[i])%len(work)])
					}
					wg.Done()
				})
			}
			wg.Wait()
			yields(5)
		})
		want := k
		if k <= 0 {
			want = 3
		}
		c.Check(ns == want, "number-of-splits", "NSplits=%d: GetNSplits says %d", k, ns)
		var all []ms.Split
		for i := range got {
			for j := range got[i] {
				a, b := got[i][j], copies[i][j]
				c.Check(sameInts(a.TrainIndex, b.TrainIndex) && sameInts(a.TestIndex, b.TestIndex), "aliased-split", "a split changed after it was received: was %v, is %v", b, a)
				all = append(all, a)
			}
		}
		c06judge(c, fmt.Sprintf("KFold(%d rows, %d splits)", n, k), n, want, all)
		// writing to one split must not show in another
		for i := range all {
			for j := range all {
				if i != j && overlaps(all[i], all[j]) {
					c.Fail("aliased-split", "two splits share index memory")
				}
			}
		}
	}
}

func overlaps(a, b ms.Split) bool {
	p := func(s []int) (lo, hi *int) {
		if len(s) == 0 {
			return nil, nil
		}
		return &s[0], &s[len(s)-1]
	}
	for _, x := range [][]int{a.TrainIndex, a.TestIndex} {
		for _, y := range [][]int{b.TrainIndex, b.TestIndex} {
			x0, _ := p(x)
			y0, _ := p(y)
			if x0 != nil && x0 == y0 {
				return true
			}
		}
	}
	return false
}

func c06clones(c *C) {
	r := c.R
	n, k := r.Range(1, 30), r.Range(1, 8)
	if r.Chance(25) {
		n, k = r.Range(31, 600), r.Range(3, 30)
	}
	shuffle := r.Bool()
	kind := r.Intn(2) // sources that can be cloned
	seed := r.Seed()
	nclones := r.Range(1, 3)
	pre := r.Chance(3) // the original has already been used once
	X, Y := idData(r, n, 2, 1)
	c.Desc("KFold n=%d NSplits=%d shuffle=%v source=%d clones=%d used-before=%v", n, k, shuffle, kind, nclones, pre)
	var want []ms.Split
	c.Ref("alone", func() {
		kf := newKFold(k, shuffle, kind, seed)
		if pre {
			drain(kf.Split(X, Y))
		}
		want = drain(kf.Split(X, Y))
	})
	c06judge(c, "alone", n, k, want)
	for rep := 0; rep < 4; rep++ {
		got := make([][]ms.Split, nclones+1)
		cfg := c.SimCfg()
		if cfg.MeanQ > 100 {
			cfg.MeanQ = 100
		}
		lateClone := c.R.Bool()
		c.SimWith("clones", cfg, func() {
			kf := newKFold(k, shuffle, kind, seed)
			if pre {
				drain(kf.Split(X, Y))
			}
			sp := []ms.Splitter{kf}
			for i := 0; i < nclones; i++ {
				src := sp[0]
				if lateClone {
					src = sp[len(sp)-1]
				}
				sp = append(sp, src.SplitterClone())
			}
			var wg verifsim.WaitGroup
			for i := range sp {
				i := i
				wg.Add(1)
				verifsim.Go(func() {
					got[i] = drain(sp[i].Split(X, Y))
					wg.Done()
				})
			}
			wg.Wait()
		})
		for i := range got {
			c.Check(splitsString(got[i]) == splitsString(want), "clone-differs", "splitter %d (0 is the original) produced %v, alone it produces %v", i, got[i], want)
		}
	}
}
