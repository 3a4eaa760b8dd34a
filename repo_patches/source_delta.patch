From b82162f3a467a48896fa1b60d437afd9f70cc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:10 +0000
Subject: [PATCH 01/84] fix: lock LockedSource while cloning it

SourceClone copied the generator state without holding the lock, so a clone taken
while another goroutine was drawing or reseeding could see a torn state.
---
 base/source.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/source.go b/base/source.go
index 663d941..8db1e63 100644
--- a/base/source.go
+++ b/base/source.go
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From 87d789f763c0b5dde77b5e07b77580d4ed399296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:18 +0000
Subject: [PATCH 02/84] fix: default the splitter of CrossValidate before using
 it

CrossValidate documents a nil splitter as KFold with 3 shuffled splits, but asked it
for its number of splits before replacing it.
---
 model_selection/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From a9e62ebab1c5d0fe57f7317ed0ec0139fee05747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:18 +0000
Subject: [PATCH 03/84] fix: KFold.GetNSplits reports the default number of
 splits

Split uses 3 splits when NSplits is not set, GetNSplits said 0, so cross-validating
with a zero KFold panicked.
---
 model_selection/split.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
-- 
2.43.0


From 97ed1552f8c16fbceba53d98cccc4b549b4a28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:18 +0000
Subject: [PATCH 04/84] fix: enumerate the parameter grid in a fixed order

ParameterGrid followed map iteration order, so the index of a combination, and the
winner among equal scores in GridSearchCV, changed from run to run.
---
 model_selection/search.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..5e2d215 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -3,6 +3,7 @@ package modelselection
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/pa-m/sklearn/base"
@@ -34,8 +35,14 @@ func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interfa
 
 		return
 	}
-	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+	// sorted keys: the order of the combinations must not depend on map iteration
+	keys := make([]string, 0, len(paramGrid))
+	for k := range paramGrid {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
+		out = makeArr(k, paramGrid[k], out)
 	}
 	return
 }
-- 
2.43.0


From 31892cc177c5335aa2df48991c42ac96b459a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 05/84] fix: PreprocessData workers write only their own
 columns

With Normalize and without FitIntercept every worker copied the whole of X
into the shared output matrix, so the workers raced with each other.
---
 linear_model/Base.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..36c3111 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -615,12 +615,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			mean := 0.
 			if FitIntercept {
 				mean = mat.Sum(xcol) / float64(Xmat.Rows)
-
-				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
-					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
-				}
-			} else {
-				Xout.Copy(X)
+			}
+			for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
+				Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 			}
 			scale := 1.
 			if FitIntercept && Normalize {
-- 
2.43.0


From 744f821031f589fac4e926d477aaaf9817ddf56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 06/84] fix: allocate the intercept of linear models on every
 fit

A fit reused the Intercept matrix of the previous one: clones of a fitted
model shared it, a refit with another number of outputs panicked and a refit
without FitIntercept kept the old intercept.
---
 linear_model/Base.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 36c3111..ee9374b 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,8 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	// always a new matrix: a previous one may be shared with clones or have other dimensions
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From 04b3c9a4a855f1133cbf44fe8deddd1929da991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 07/84] fix: MakeBlobs draws from its random state without
 races

The workers drew cluster numbers from the unlocked random state concurrently,
the normal deviates and the shuffling ignored the random state altogether,
and sources without NormFloat64 or Intn methods were ignored.
---
 datasets/samples_generator.go | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..47ace25 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -2,7 +2,6 @@ package datasets
 
 import (
 	"math"
-	"runtime"
 	"sort"
 
 	"golang.org/x/exp/rand"
@@ -150,9 +149,13 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	if config.RandomState != nil {
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
+		} else {
+			randNormFloat64 = rand.New(config.RandomState).NormFloat64
 		}
 		if intner, ok := config.RandomState.(base.Intner); ok {
 			randIntn = intner.Intn
+		} else {
+			randIntn = rand.New(config.RandomState).Intn
 		}
 	}
 
@@ -173,25 +176,25 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
-		mu := make([]float64, config.NFeatures)
-		sigma := mat.NewSymDense(config.NFeatures, nil)
-
-		for i := 0; i < config.NFeatures; i++ {
-			sigma.SetSym(i, i, 1)
-		}
-		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
-		_ = normal
-		for sample := start; sample < end; sample++ {
-			cluster := randIntn(NCenters)
-			Y.Set(sample, 0, float64(cluster))
-			normal.Rand(X.RawRowView(sample))
-			floats.Add(X.RawRowView(sample), Centers.RawRowView(cluster))
-		}
-	})
+	// samples are drawn one after another: the random state must not be shared by goroutines and
+	// the result must not depend on their schedule
+	mu := make([]float64, config.NFeatures)
+	sigma := mat.NewSymDense(config.NFeatures, nil)
+	for i := 0; i < config.NFeatures; i++ {
+		sigma.SetSym(i, i, 1)
+	}
+	sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
+	normal, _ := distmv.NewNormal(mu, sigma, config.RandomState)
+	for sample := 0; sample < config.NSamples; sample++ {
+		cluster := randIntn(NCenters)
+		Y.Set(sample, 0, float64(cluster))
+		normal.Rand(X.RawRowView(sample))
+		floats.Add(X.RawRowView(sample), Centers.RawRowView(cluster))
+	}
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From 2186aa3b5018b57d49905bec8ee7c8cbb372f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:05 +0000
Subject: [PATCH 08/84] fix: SVM outputs trained in parallel do not share a
 random state

The goroutines training the outputs drew from the same unlocked source, which
raced (it could even panic) and made the model depend on the schedule.
---
 svm/svm.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..9aeec53 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -292,11 +292,24 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
+	// a random state must not be used by several goroutines: each output gets its own
+	randomStates := make([]base.Source, Noutputs)
+	for output := range randomStates {
+		randomStates[output] = m.RandomState
+		if m.RandomState == nil || Noutputs == 1 {
+			continue
+		}
+		if sourceCloner, ok := m.RandomState.(base.SourceCloner); ok {
+			randomStates[output] = sourceCloner.SourceClone()
+		} else {
+			randomStates[output] = base.NewSource(m.RandomState.Uint64())
+		}
+	}
 	base.Parallelize(-1, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, m.RandomState)
+			m.Model[output] = svmTrain(X, y, m.C, m.Epsilon, K, m.Tol, m.MaxIter, m.CacheSize, randomStates[output])
 			model := m.Model[output]
 			m.Support[output] = model.Support
 			m.SupportVectors[output] = make([][]float64, len(model.Support))
-- 
2.43.0


From 1df7a391182bf9350b3bb9595c429f727cbe793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:12 +0000
Subject: [PATCH 09/84] fix: a refitted NearestNeighbors does not keep the tree
 of the previous fit

---
 neighbors/unsupervised.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..2877ed0 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -51,6 +51,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 		m.NJobs = runtime.NumCPU()
 	}
 	m.X = mat.DenseCopyOf(X)
+	m.Tree = nil
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
 	if useKDTree {
 		if m.LeafSize <= 0 {
-- 
2.43.0


From b625213b891d574f2cb53118591cc26f41662d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:12 +0000
Subject: [PATCH 10/84] fix: NearestCentroid keeps its centroids, measures
 distances with its metric and can be cloned

---
 neighbors/nearest_centroid.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..10119a4 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -30,6 +31,18 @@ func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid
 	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
 // Fit ...
 func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
@@ -58,6 +71,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
+				sort.Float64s(col[0:rows])
 				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
@@ -65,6 +79,9 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.Centroids = Centroids
+	m.NearestNeighbors = *NewNearestNeighbors()
+	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
 }
-- 
2.43.0


From dbf736bc58752e5d8d1b6fe52f6c7c82c473ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:12 +0000
Subject: [PATCH 11/84] fix: KNeighborsClassifier copies its targets, breaks
 vote ties by class order and can be cloned

---
 neighbors/classification.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..49dbed3 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -32,11 +32,20 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 	return &KNeighborsClassifier{NearestNeighbors: *NewNearestNeighbors(), K: K, Weight: Weights}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
@@ -124,18 +133,17 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 						classw[cl] = weights[ik]
 					}
 				}
+				// scan classes in increasing order so that ties do not depend on map order
 				wmax, clwmax := 0., 0.
-				for cl, w := range classw {
-					if w > wmax {
+				for _, cl := range m.Classes[o] {
+					if w := classw[cl]; w > wmax {
 						wmax = w
 						clwmax = cl
 					}
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
@@ -173,9 +181,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From 95c0ff533aea60c63939715e41eaa0bc7bd3b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:12 +0000
Subject: [PATCH 12/84] fix: KNeighborsGraph in distance mode weights the edges
 to the neighbours

---
 neighbors/unsupervised.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 2877ed0..72e2b66 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -105,22 +105,18 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				weight := 1.
+				if mode != "connectivity" {
+					weight = distances.At(sample, ik)
+				}
+				graph.Set(sample, index, weight)
 			}
 		}
 	})
-- 
2.43.0


From 145758388b4b3453dee1b334f885ebcfa162c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 13/84] fix: MinkowskiDistanceP of one-dimensional points is
 raised to p like any other

---
 cluster/distance.go   | 3 ---
 neighbors/distance.go | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..562122a 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,9 +11,6 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..33aa5d9 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,9 +11,6 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
-- 
2.43.0


From 0fc9432c8ed87f01362e697b84c30e1c97e6b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:34 +0000
Subject: [PATCH 14/84] fix: KDTree construction terminates when a cell holds
 equal values along its widest axis

---
 neighbors/kdtree.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..baeff32 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -268,21 +268,20 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 		lessIdx, greaterIdx = lgfill(split)
 	}
 	if len(greaterIdx) == 0 {
-		M := math.Inf(-1)
+		M, m := math.Inf(-1), math.Inf(1)
 		for _, i := range idx {
-			if v := tr.Data.At(i, d); v > M {
-				M = v
-			}
+			v := tr.Data.At(i, d)
+			M, m = math.Max(M, v), math.Min(m, v)
+		}
+		if M == m {
+			// all have the same value: shrink the cell to it and split along another axis
+			maxes, mins = copyFloatSlice(maxes), copyFloatSlice(mins)
+			maxes[d], mins[d] = M, m
+			return tr._build(idx, maxes, mins)
 		}
 		split = M
 		lessIdx, greaterIdx = lgfill(split)
 	}
-	if len(lessIdx) == 0 {
-		// # _still_ zero? all must have the same value
-		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
-	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
 	greatermins := copyFloatSlice(mins)
-- 
2.43.0


From 95a7a9bd7ec8aa195562c2cdc28f4281bd45d13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:34 +0000
Subject: [PATCH 15/84] fix: MinMaxScaler does not write to the data it is
 fitted on

---
 preprocessing/data.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..d37e9d2 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -73,11 +73,13 @@ func (scaler *MinMaxScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 		scaler.DataMin.CloneFrom(X.RowView(0).T())
 		scaler.DataMax.CloneFrom(X.RowView(0).T())
 	}
-	X.Apply(func(i int, j int, x float64) float64 {
-		scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
-		scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
-		return x
-	}, X)
+	for i := 0; i < nSamples; i++ {
+		for j := 0; j < nFeatures; j++ {
+			x := X.At(i, j)
+			scaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))
+			scaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))
+		}
+	}
 	scaler.NSamplesSeen += nSamples
 	// dataRange = dataMax - dataMin
 	scaler.DataRange.Sub(scaler.DataMax, scaler.DataMin)
-- 
2.43.0


From 0e847d706b257984d4183e0d98387345cdfff680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 16/84] fix: RobustScaler allocates its statistics on every fit

---
 preprocessing/data.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index d37e9d2..6b97833 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -364,15 +364,14 @@ func (scaler *RobustScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 	if nSamples == 0 {
 		return scaler
 	}
-	if scaler.Center && (scaler.Median == nil) {
+	// always new matrices: previous ones may be shared with clones or have other dimensions
+	if scaler.Center {
 		scaler.Median = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Scale && (scaler.QuantileDivider == nil) {
+	if scaler.Scale {
 		scaler.QuantileDivider = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Tmp == nil {
-		scaler.Tmp = mat.NewDense(1, nSamples, nil)
-	}
+	scaler.Tmp = mat.NewDense(1, nSamples, nil)
 
 	for c := 0; c < nFeatures; c++ {
 		for r := 0; r < nSamples; r++ {
-- 
2.43.0


From 47bdc00aff1bf889c7032ee1242c38e4fd06bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:35 +0000
Subject: [PATCH 17/84] fix: clones of Shuffler do not share their random state

---
 preprocessing/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 6b97833..bbe3709 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -798,6 +798,9 @@ func NewShuffler() *Shuffler { return &Shuffler{} }
 // TransformerClone ...
 func (m *Shuffler) TransformerClone() base.Transformer {
 	var clone = *m
+	if sourceCloner, ok := m.RandomState.(base.SourceCloner); ok {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
-- 
2.43.0


From 63698f3880e604940e53eaea3092e4c04775a86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:36 +0000
Subject: [PATCH 18/84] fix: PowerTransformer.Transform does not overwrite its
 input

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index bbe3709..1abe902 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1294,7 +1294,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From edc7c671749b46837f3ae21985451fb27ec94b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:36 +0000
Subject: [PATCH 19/84] fix: concurrent Normalizer.Transform calls do not race
 on the saved norms

---
 preprocessing/data.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 1abe902..e59601b 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"sync"
 
 	"golang.org/x/exp/rand"
 
@@ -1000,6 +1001,7 @@ func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 type Normalizer struct {
 	Norm      string
 	Axis      int
+	mu        sync.Mutex // protects nrmValues, set by every Transform
 	nrmValues []float64
 }
 
@@ -1008,8 +1010,9 @@ func NewNormalizer() *Normalizer { return &Normalizer{Norm: "l2", Axis: 1} }
 
 // TransformerClone ...
 func (m *Normalizer) TransformerClone() base.Transformer {
-	var clone = *m
-	return &clone
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	return &Normalizer{Norm: m.Norm, Axis: m.Axis, nrmValues: m.nrmValues}
 }
 
 // Fit for Normalizer ...
@@ -1028,13 +1031,14 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	case "max":
 		norm = math.Inf(1)
 	}
+	var nrmValues []float64
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
-		m.nrmValues = make([]float64, NFeatures)
+		nrmValues = make([]float64, NFeatures)
 		for i := 0; i < NFeatures; i++ {
 			mat.Col(tmp, i, X)
 			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
-			m.nrmValues[i] = nrm
+			nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
 			}
@@ -1042,17 +1046,20 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		}
 	} else {
 		tmp := make([]float64, NFeatures)
-		m.nrmValues = make([]float64, NSamples)
+		nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
 			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
-			m.nrmValues[i] = nrm
+			nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
 			}
 			Xout.SetRow(i, tmp)
 		}
 	}
+	m.mu.Lock()
+	m.nrmValues = nrmValues
+	m.mu.Unlock()
 	Yout = base.ToDense(Y)
 	return
 }
@@ -1066,11 +1073,14 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	m.mu.Lock()
+	nrmValues := m.nrmValues
+	m.mu.Unlock()
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
 			mat.Col(tmp, i, X)
-			nrm := m.nrmValues[i]
+			nrm := nrmValues[i]
 			floats.Scale(nrm, tmp)
 			Xout.SetCol(i, tmp)
 		}
@@ -1078,7 +1088,7 @@ func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		tmp := make([]float64, NFeatures)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := m.nrmValues[i]
+			nrm := nrmValues[i]
 			floats.Scale(nrm, tmp)
 			Xout.SetRow(i, tmp)
 		}
-- 
2.43.0


From 5d878ae3ee302edac12b072f2d9a70cb0bfdb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:37 +0000
Subject: [PATCH 20/84] fix: Imputer breaks most_frequent ties by value and not
 by map order

---
 preprocessing/imputation.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/preprocessing/imputation.go b/preprocessing/imputation.go
index 7cf37ca..2c22abc 100644
--- a/preprocessing/imputation.go
+++ b/preprocessing/imputation.go
@@ -47,7 +47,16 @@ func (m *Imputer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				sort.Float64s(tmp)
 				def = stat.Quantile(.5, stat.Empirical, tmp, nil)
 			case "most_frequent":
-				def, _ = stat.Mode(tmp, nil)
+				// the smallest of the most frequent values, whatever the map order in stat.Mode
+				sort.Float64s(tmp)
+				def = 0
+				for start, best := 0, 0; start < len(tmp); {
+					end := start + sort.Search(len(tmp)-start, func(k int) bool { return tmp[start+k] > tmp[start] })
+					if end-start > best {
+						def, best = tmp[start], end-start
+					}
+					start = end
+				}
 			default:
 				def = stat.Mean(tmp, nil)
 			}
-- 
2.43.0


From 1b17d4221d352af661aeb09ed58583c29500f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:38 +0000
Subject: [PATCH 21/84] fix: a fit of PCA does not overwrite the factorization
 of its clones

---
 preprocessing/pca.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..81c27f6 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -28,6 +28,7 @@ func (m *PCA) TransformerClone() base.Transformer {
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	_, c := X.Dims()
+	m.SVD = mat.SVD{} // Factorize reuses memory which clones may share
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From dbe2525f08a36bfbea8ca6bc93efc31f19ffea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:38 +0000
Subject: [PATCH 22/84] fix: PCA without NComponents keeps all components on
 every fit

---
 preprocessing/pca.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 81c27f6..1b7f356 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -13,6 +13,7 @@ type PCA struct {
 	MinVarianceRatio                       float64
 	NComponents                            int
 	SingularValues, ExplainedVarianceRatio []float64
+	defaultNComponents                     int // value given to NComponents by Fit when it was 0
 }
 
 // NewPCA returns a *PCA
@@ -45,8 +46,9 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		}
 		m.NComponents = nComponents
 	} else {
-		if m.NComponents == 0 {
+		if m.NComponents == 0 || m.NComponents == m.defaultNComponents {
 			m.NComponents = c
+			m.defaultNComponents = c
 		}
 	}
 
-- 
2.43.0


From 3498204a9583d10d675fcc94a08a776e48e9a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:14 +0000
Subject: [PATCH 23/84] fix: GaussianNB.PartialFit merges batch variances with
 the mean before the update

---
 naive_bayes/naivebayes.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..a3d26df 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,6 +150,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	lastEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
@@ -195,7 +196,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - lastEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
@@ -358,8 +359,8 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
+		dmu := mu[c] - newMu[c] // before setTotalMu, which writes to mu
 		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
-		dmu := mu[c] - newMu[c]
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From 77cef0949116eaf31ac86bd433d6270c1cf4e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:14 +0000
Subject: [PATCH 24/84] fix: refitting GaussianNB forgets the previous fit

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index a3d26df..3ca466e 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -155,7 +155,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	if refit {
 		m.Classes = nil
 	}
-	firstCall := m.Theta == nil
+	firstCall := refit || m.Theta == nil
 	if firstCall {
 		m.Classes = classes
 		nFeatures := xc
-- 
2.43.0


From 3588e114c1862e05e30b609871464539f5bc6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:14 +0000
Subject: [PATCH 25/84] fix: clones of a fitted GaussianNB own their statistics

---
 naive_bayes/naivebayes.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 3ca466e..7044e1b 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,13 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	if m.Theta != nil {
+		// a copy of the fitted state, which PartialFit updates in place
+		clone.Theta, clone.Sigma = mat.DenseCopyOf(m.Theta), mat.DenseCopyOf(m.Sigma)
+		clone.ClassCount = append([]float64{}, m.ClassCount...)
+		clone.ClassPrior = append([]float64{}, m.ClassPrior...)
+		clone.bindJointLogLikelihood()
+	}
 	return &clone
 }
 
@@ -235,6 +242,11 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
+	m.bindJointLogLikelihood()
+	return m
+}
+
+func (m *GaussianNB) bindJointLogLikelihood() {
 	m.jointLogLikelihood = func(jll, xrow []float64) {
 		/*
 		   joint_log_likelihood = []
@@ -260,7 +272,6 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 			jll[i] = jointi + nij
 		}
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From 07f72d70dd3912654f3e8c6bc6c8cc3cfbdc75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:00 +0000
Subject: [PATCH 26/84] fix: refitting a perceptron forgets loss history,
 validation scores and labels of the previous fit

---
 neural_network/basemlp32.go | 5 +++++
 neural_network/basemlp64.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..39a0f81 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -411,6 +411,10 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	// # Initialize parameters
 	mlp.NIter = 0
 	mlp.t = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.BestValidationScore = 0
+	mlp.NoImprovementCount = 0
 	mlp.NOutputs = yCols
 
 	//# Compute the number of layers
@@ -591,6 +595,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..793abf1 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -411,6 +411,10 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	// # Initialize parameters
 	mlp.NIter = 0
 	mlp.t = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.BestValidationScore = 0
+	mlp.NoImprovementCount = 0
 	mlp.NOutputs = yCols
 
 	//# Compute the number of layers
@@ -591,6 +595,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
-- 
2.43.0


From 0f3847ff0d421729ea4e7f3b4b8ad2ffaebb4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:14 +0000
Subject: [PATCH 27/84] fix: a perceptron keeps its BatchSize parameter when
 the training set is smaller

---
 neural_network/basemlp32.go | 28 ++++++++++++++--------------
 neural_network/basemlp64.go | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 39a0f81..e5c5c46 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -516,18 +516,19 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
+	batchSize := mlp.BatchSize
 	//    # lbfgs does not support mini-batches
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -537,16 +538,16 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float32, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas32General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas32General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -569,7 +570,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -733,7 +734,7 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activations, deltas, coefGrads []blas32General,
-	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, incremental bool) {
+	interceptGrads [][]float32, packedGrads []float32, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer32(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -768,7 +769,6 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 793abf1..bc73bef 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -516,18 +516,19 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
+	batchSize := mlp.BatchSize
 	//    # lbfgs does not support mini-batches
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
-		mlp.BatchSize = nSamples
-	} else if mlp.BatchSize <= 0 {
-		mlp.BatchSize = nSamples
-		if mlp.BatchSize > 200 {
-			mlp.BatchSize = 200
+		batchSize = nSamples
+	} else if batchSize <= 0 {
+		batchSize = nSamples
+		if batchSize > 200 {
+			batchSize = 200
 		}
 	} else {
-		if mlp.BatchSize > nSamples {
+		if batchSize > nSamples {
 			log.Printf("Got batchsize larger than sample size.  It is going to be clipped.\n")
-			mlp.BatchSize = nSamples
+			batchSize = nSamples
 		}
 	}
 	// # Initialize lists
@@ -537,16 +538,16 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	// compute size of activations and deltas
 	off := 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
+		size := batchSize * nFanOut
 		off += size + size
 	}
 	mem := make([]float64, off)
 	off = 0
 	for _, nFanOut := range layerUnits[1:] {
-		size := mlp.BatchSize * nFanOut
-		activations = append(activations, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		size := batchSize * nFanOut
+		activations = append(activations, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
-		deltas = append(deltas, blas64General{Rows: mlp.BatchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
+		deltas = append(deltas, blas64General{Rows: batchSize, Cols: nFanOut, Stride: nFanOut, Data: mem[off : off+size]})
 		off += size
 	}
 
@@ -569,7 +570,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	} else {
 		// # Run the Stochastic optimization solver
 		mlp.fitStochastic(X, y, activations, deltas, CoefsGrads,
-			InterceptsGrads, packedGrads, layerUnits, incremental)
+			InterceptsGrads, packedGrads, layerUnits, batchSize, incremental)
 	}
 	mlp.packedGrads = packedGrads
 }
@@ -733,7 +734,7 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 }
 
 func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activations, deltas, coefGrads []blas64General,
-	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, incremental bool) {
+	interceptGrads [][]float64, packedGrads []float64, layerUnits []int, batchSize int, incremental bool) {
 	if !incremental || mlp.optimizer == Optimizer64(nil) {
 		params := mlp.packedParameters
 		switch mlp.Solver {
@@ -768,7 +769,6 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
-	batchSize := mlp.BatchSize
 	idx := make([]int, nSamples)
 	for i := range idx {
 		idx[i] = i
-- 
2.43.0


From bdf767302265e119dcdb1b9a6d66c9a746d3afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:15 +0000
Subject: [PATCH 28/84] fix: MLPRegressor does not shuffle the rows of its
 caller

---
 neural_network/multilayer_perceptron.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..6680232 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,10 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	if mlp.Shuffle {
+		// shuffle copies, not the rows of the caller
+		X, Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	}
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From be341b2c8af0dcebaff9ff34ef701c8b853d35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:40 +0000
Subject: [PATCH 29/84] fix: clones of perceptrons do not share weights or
 random state

---
 neural_network/basemlp32.go             | 19 +++++++++++++++++++
 neural_network/basemlp64.go             | 19 +++++++++++++++++++
 neural_network/multilayer_perceptron.go |  5 +++++
 3 files changed, 43 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e5c5c46..2ebd315 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -575,6 +575,25 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	mlp.packedGrads = packedGrads
 }
 
+// ownParameters gives a copied perceptron its own weights, which a warm start updates in place
+func (mlp *BaseMultilayerPerceptron32) ownParameters() {
+	size := 0
+	for i := range mlp.Coefs {
+		size += len(mlp.Intercepts[i]) + len(mlp.Coefs[i].Data)
+	}
+	mem := make([]float32, 0, size)
+	coefs, intercepts := make([]blas32General, len(mlp.Coefs)), make([][]float32, len(mlp.Coefs))
+	for i := range coefs {
+		off := len(mem)
+		mem = append(append(mem, mlp.Intercepts[i]...), mlp.Coefs[i].Data...)
+		intercepts[i] = mem[off : off+len(mlp.Intercepts[i])]
+		coefs[i] = mlp.Coefs[i]
+		coefs[i].Data = mem[off+len(intercepts[i]):]
+	}
+	mlp.packedParameters, mlp.Coefs, mlp.Intercepts = mem, coefs, intercepts
+	mlp.optimizer = nil
+}
+
 // IsClassifier return true if LossFuncName is not square_loss
 func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 	return mlp.LossFuncName != "square_loss"
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bc73bef..163ff0b 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -575,6 +575,25 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	mlp.packedGrads = packedGrads
 }
 
+// ownParameters gives a copied perceptron its own weights, which a warm start updates in place
+func (mlp *BaseMultilayerPerceptron64) ownParameters() {
+	size := 0
+	for i := range mlp.Coefs {
+		size += len(mlp.Intercepts[i]) + len(mlp.Coefs[i].Data)
+	}
+	mem := make([]float64, 0, size)
+	coefs, intercepts := make([]blas64General, len(mlp.Coefs)), make([][]float64, len(mlp.Coefs))
+	for i := range coefs {
+		off := len(mem)
+		mem = append(append(mem, mlp.Intercepts[i]...), mlp.Coefs[i].Data...)
+		intercepts[i] = mem[off : off+len(mlp.Intercepts[i])]
+		coefs[i] = mlp.Coefs[i]
+		coefs[i].Data = mem[off+len(intercepts[i]):]
+	}
+	mlp.packedParameters, mlp.Coefs, mlp.Intercepts = mem, coefs, intercepts
+	mlp.optimizer = nil
+}
+
 // IsClassifier return true if LossFuncName is not square_loss
 func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 	return mlp.LossFuncName != "square_loss"
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 6680232..a4a73a5 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -36,6 +36,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 		return nil
 	}
 	clone := *mlp
+	clone.ownParameters()
 	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
 		clone.RandomState = sourceCloner.SourceClone()
 	}
@@ -96,6 +97,10 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
 	clone := *mlp
+	clone.ownParameters()
+	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		clone.RandomState = sourceCloner.SourceClone()
+	}
 	return &clone
 }
 
-- 
2.43.0


From ff16a02088e16c7bd1ab5fb998a847f1ded213f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:56 +0000
Subject: [PATCH 30/84] fix: models trained with lbfgs end with the parameters
 the optimizer returns

---
 linear_model/logistic.go    | 3 +++
 neural_network/basemlp32.go | 5 +++++
 neural_network/basemlp64.go | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..fe9f72a 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -444,6 +444,9 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	if err != nil {
 		log.Panic(err)
 	}
+	// the last evaluation is not always the best one
+	copy(m.packedParameters, res.X)
+	m.Loss = res.F
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 2ebd315..ff34d84 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -747,6 +747,11 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 	if err != nil {
 		log.Panic(err)
 	}
+	// the last evaluation is not always the best one
+	for i := range res.X {
+		mlp.packedParameters[i] = float32(res.X[i])
+	}
+	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 163ff0b..cd92752 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -747,6 +747,11 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 	if err != nil {
 		log.Panic(err)
 	}
+	// the last evaluation is not always the best one
+	for i := range res.X {
+		mlp.packedParameters[i] = float64(res.X[i])
+	}
+	mlp.Loss = float64(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From 38a8b3b880b4ff0e51550ae81de68cbf82f769eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:56 +0000
Subject: [PATCH 31/84] fix: refitting LogisticRegression forgets loss history
 and labels of the previous fit

---
 linear_model/logistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index fe9f72a..f8dd282 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -271,6 +271,7 @@ func (m *LogisticRegression) initialize(yCols int, layerUnits []int, isMultiClas
 	// # Initialize parameters
 	m.NIter = 0
 	m.t = 0
+	m.LossCurve = nil
 	m.NOutputs = yCols
 
 	//# Compute the number of layers
@@ -345,6 +346,7 @@ func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 		xb = mat.DenseCopyOf(X)
 		yb = mat.DenseCopyOf(Y)
 	}
+	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From 9428e72a8c1c576bc17c704764b27662a4466509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:35 +0000
Subject: [PATCH 32/84] fix: concurrent evaluations of a linear model loss do
 not share their scratch matrices

---
 linear_model/Base.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index ee9374b..4158967 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -172,10 +172,9 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	loss := func(coefSlice []float, o int) float {
 		// e = sumi { (yi -sumj cj Xij)² }
 		// de/dcj =
-		regr.Coef.SetCol(o, coefSlice)
 		tmp := mat.NewDense(nSamples, 1, nil)
 		// e will be sum of squares of errors
-		tmp.Mul(X, regr.Coef.ColView(o))
+		tmp.Mul(X, mat.NewVecDense(nFeatures, coefSlice))
 		tmp.Sub(tmp, Y.ColView(o))
 		tmp.MulElem(tmp, tmp)
 		e := mat.Sum(tmp) / 2. / float(nSamples)
@@ -188,7 +187,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			alphaL2 := regr.Alpha * (1. - regr.L1Ratio) / 2. / float64(nSamples)
 
 			for j := 0; j < nFeatures; j++ {
-				c := regr.Coef.At(j, o)
+				c := coefSlice[j]
 				L1 += alphaL1 * math.Abs(c)
 				L2 += alphaL2 * c * c
 			}
@@ -217,9 +216,8 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			}
 			// X dot Ydiff+ alpha*l1ratio*sign+alpha*(1-l1ratio)*coef
 			tmp := mat.NewDense(nSamples, 1, nil)
-			regr.Coef.SetCol(o, coef)
-			tmp.Mul(X, regr.Coef.ColView(o)) // X dot coef
-			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
+			tmp.Mul(X, mat.NewVecDense(nFeatures, coef)) // X dot coef
+			tmp.Sub(tmp, Y.ColView(o))                   // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
 			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
@@ -490,11 +488,12 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 		chanret := make(chan fitOutputRes, nOutputs)
 
 		fitOutput := func(o int, chanret chan fitOutputRes) {
-			Ypred := mat.NewDense(nSamples, 1, nil)
-			Ydiff := mat.NewDense(nSamples, 1, nil)
 			thetao := make([]float64, nFeatures)
 			p := optimize.Problem{
 				Func: func(thetao []float64) float64 {
+					// evaluations may be concurrent: each one needs its own matrices
+					Ypred := mat.NewDense(nSamples, 1, nil)
+					Ydiff := mat.NewDense(nSamples, 1, nil)
 					J := opts.Loss(Ytrue.ColView(o), X, mat.NewDense(nFeatures, 1, thetao), Ypred, Ydiff, nil, opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 					return J
 				},
@@ -505,7 +504,8 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 					if len(thetao) != len(grad) {
 						panic("incorrect size of the gradient")
 					}
-
+					Ypred := mat.NewDense(nSamples, 1, nil)
+					Ydiff := mat.NewDense(nSamples, 1, nil)
 					opts.Loss(Ytrue.ColView(o), X, mat.NewDense(nFeatures, 1, thetao), Ypred, Ydiff, mat.NewDense(nFeatures, 1, grad), opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 				},
 			}
@@ -530,11 +530,10 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 	} else {
 
-		Ypred := mat.NewDense(nSamples, nOutputs, nil)
-		Ydiff := mat.NewDense(nSamples, nOutputs, nil)
 		p := optimize.Problem{
 			Func: func(theta []float64) float64 {
-
+				Ypred := mat.NewDense(nSamples, nOutputs, nil)
+				Ydiff := mat.NewDense(nSamples, nOutputs, nil)
 				J := opts.Loss(Ytrue, X, mat.NewDense(nFeatures, nOutputs, theta), Ypred, Ydiff, nil, opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 				return J
 			},
@@ -542,11 +541,16 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 				if grad == nil {
 					grad = make([]float64, len(theta))
 				}
+				Ypred := mat.NewDense(nSamples, nOutputs, nil)
+				Ydiff := mat.NewDense(nSamples, nOutputs, nil)
 				opts.Loss(Ytrue, X, mat.NewDense(nFeatures, nOutputs, theta), Ypred, Ydiff, mat.NewDense(nFeatures, nOutputs, grad), opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 			},
 		}
 		ret, err = optimize.Minimize(p, theta, fSettings(), opts.GOMethodCreator())
 		copy(theta, ret.X)
+		Ypred := mat.NewDense(nSamples, nOutputs, nil)
+		Ydiff := mat.NewDense(nSamples, nOutputs, nil)
+		opts.Loss(Ytrue, X, thetaM, Ypred, Ydiff, nil, opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 		rmse = mat.Norm(Ydiff, 2) / float64(nOutputs)
 		epoch = ret.FuncEvaluations
 		converged = ret.Status != optimize.Failure
-- 
2.43.0


From 7d23e2a3339f8ac6bddcaaa9c7ddb16637acece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:36 +0000
Subject: [PATCH 33/84] fix: clones of SGDRegressor do not share the state of
 their optimization method

---
 linear_model/Base.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 4158967..49a63b1 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -3,6 +3,7 @@ package linearmodel
 import (
 	"errors"
 	"fmt"
+	"reflect"
 	"time"
 
 	"github.com/pa-m/sklearn/base"
@@ -157,9 +158,33 @@ func (*SGDRegressor) IsClassifier() bool { return false }
 // PredicterClone for SGDRegressor
 func (regr *SGDRegressor) PredicterClone() base.Predicter {
 	clone := *regr
+	if regr.Method != nil {
+		clone.Method = cloneOptimizePart(reflect.ValueOf(regr.Method)).Interface().(optimize.Method)
+	}
 	return &clone
 }
 
+// cloneOptimizePart returns a copy of v, a pointer to a struct of package optimize, with the exported fields of v.
+// Unexported fields, which are the working state of a running optimization, are left to their zero value
+func cloneOptimizePart(v reflect.Value) reflect.Value {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	if v.Kind() != reflect.Ptr || v.IsNil() || v.Type().Elem().Kind() != reflect.Struct ||
+		v.Type().Elem().PkgPath() != reflect.TypeOf(optimize.LBFGS{}).PkgPath() {
+		return v
+	}
+	clone := reflect.New(v.Type().Elem())
+	for i := 0; i < clone.Elem().NumField(); i++ {
+		if dst, src := clone.Elem().Field(i), v.Elem().Field(i); dst.CanSet() {
+			if src = cloneOptimizePart(src); src.IsValid() {
+				dst.Set(src)
+			}
+		}
+	}
+	return clone
+}
+
 // Fit learns Coef
 func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X0, y0 := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 9a244d102445097d922aa3e7bc5276fd797abef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:49 +0000
Subject: [PATCH 34/84] fix: a clone of ElasticNet does not share the
 coefficients updated by a warm start

---
 linear_model/coordinatedescent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..eddccbc 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -41,6 +41,9 @@ func (*ElasticNet) IsClassifier() bool { return false }
 // PredicterClone for ElasticNet
 func (regr *ElasticNet) PredicterClone() base.Predicter {
 	clone := *regr
+	if regr.Coef != nil {
+		clone.Coef = mat.DenseCopyOf(regr.Coef) // updated in place when WarmStart is set
+	}
 	return &clone
 }
 
-- 
2.43.0


From 0ba2c3a669ebcb23ece62fd82411715e6d38e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 35/84] fix: BayesianRidge does not write to its targets

---
 linear_model/bayes.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..b17ca50 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -53,10 +53,12 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	var _, nOutputs = Y.Dims()
 	//alpha_ = 1. / np.var(y)
 	alpha := 0.
-	Y.Apply(func(i int, j int, y float64) float64 {
-		alpha += y * y
-		return y
-	}, Y)
+	for i := 0; i < nSamples; i++ {
+		for j := 0; j < nOutputs; j++ {
+			y := Y.At(i, j)
+			alpha += y * y
+		}
+	}
 	alpha = float64(nSamples*nOutputs) / alpha
 
 	lambda := 1.
-- 
2.43.0


From cd49bc5993c6a6a85557f7ec614f4ba911ac4cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 36/84] fix: refitting DBSCAN forgets the core samples of the
 previous fit

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..a10dd9c 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -112,6 +112,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
+	m.CoreSampleIndices = nil
 	for sample := range NNeighbors {
 		if NNeighbors[sample] > m.MinSamples {
 			isCore[sample] = true
-- 
2.43.0


From 560bc34f73bedfb6f98c268f7dfdcf7eae80428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 37/84] fix: DBSCAN with a minkowski metric uses its own power

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index a10dd9c..4a334af 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -85,6 +85,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	m.NeighborsModel.Algorithm = m.Algorithm
 	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
 	m.NeighborsModel.Metric = m.Metric
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.NJobs = m.NJobs
 	m.NeighborsModel.LeafSize = m.LeafSize
 	m.NeighborsModel.Fit(X, nil)
-- 
2.43.0


From c720c604ac2b4eebeed7df1596776273d132b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 38/84] fix: LoadOctaveBin accepts short reads and rejects
 truncated files

---
 datasets/octave.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index 57b53be..5022183 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"compress/gzip"
 	"encoding/binary"
-	"fmt"
 	"io"
 	"os"
 	"strings"
@@ -25,18 +24,9 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 	}
 	read := func(f *PosReader, n int) ([]byte, error) {
 		b := make([]byte, n)
-		nread, err := f.Reader.Read(b)
-		if err != nil {
-			return b, err
-		}
+		nread, err := io.ReadFull(f.Reader, b)
 		f.Pos += nread
-		if nread != n {
-			panic(fmt.Errorf("%d/%d bytes read", nread, n))
-		}
-		if err != nil {
-			panic(err)
-		}
-		return b, nil
+		return b, err
 	}
 	readUint32 := func(f *PosReader) (uint32, error) {
 
@@ -53,6 +43,9 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 			return "", err
 		}
 		b, err := read(f, int(lenString))
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return "", err
 		}
@@ -92,9 +85,11 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 		check(err)
 		//fmt.Printf("varname:%s\n", VarName)
 		//read doclength (4)
-		read(f, 4)
+		_, err = read(f, 4)
+		check(err)
 		//read doc (1 byte)
-		read(f, 1)
+		_, err = read(f, 1)
+		check(err)
 		// read datatype
 		b, err = read(f, 1)
 		check(err)
@@ -108,7 +103,8 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 			panic("matrix expected")
 		}
 		// read FE FF FF FF
-		read(f, 4)
+		_, err = read(f, 4)
+		check(err)
 		var Rows, Cols uint32
 		Rows, err = readUint32(f)
 		check(err)
@@ -116,8 +112,9 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 		check(err)
 		//fmt.Printf("%d x %d\n", Rows, Cols)
 		// read 1 unknown byte
-		read(f, 1)
-		data := make([]float64, Rows*Cols)
+		_, err = read(f, 1)
+		check(err)
+		data := make([]float64, int(Rows)*int(Cols))
 		t := mat.NewDense(int(Rows), int(Cols), data)
 
 		coldata := make([]float64, int(Rows))
-- 
2.43.0


From 5833b74382c132c699bf9e20dabc66267f40e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:27 +0000
Subject: [PATCH 39/84] fix: LoadInternationalAirlinesPassengers reports an
 error reading its header

---
 datasets/base.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datasets/base.go b/datasets/base.go
index 11003b7..34da2e9 100644
--- a/datasets/base.go
+++ b/datasets/base.go
@@ -161,7 +161,8 @@ func LoadInternationalAirlinesPassengers() (Y *mat.Dense) {
 	check(err)
 	defer f.Close()
 	fb := bufio.NewReader(f)
-	fb.ReadLine()
+	_, _, err = fb.ReadLine()
+	check(err)
 	r := csv.NewReader(fb)
 	r.Comma = ','
 
-- 
2.43.0


From f12c2416ad930c506a099531d1f74c83eabe6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:36 +0000
Subject: [PATCH 40/84] fix: an SVM without support vectors does not panic

---
 svm/svm.go | 5 ++++-
 svm/svr.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 9aeec53..15d99a7 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -154,13 +154,16 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X.ReuseAs(len(idx), n)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Y[ii] = Y[i]
diff --git a/svm/svr.go b/svm/svr.go
index 780f841..3a83c27 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,12 +177,15 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X.ReuseAs(len(idx), n)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Alphas[ii] = alphas[i]
-- 
2.43.0


From 33ac9c7f9cacf6e3d567113419fbb27a7a02f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:12 +0000
Subject: [PATCH 41/84] fix: refitting MaxAbsScaler forgets the samples of the
 previous fit

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index e59601b..9920404 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -933,6 +933,7 @@ func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	Xmat := X.RawMatrix()
+	m.NSamplesSeen = 0
 	m.MaxAbs = make([]float64, Xmat.Cols)
 	m.Scale = make([]float64, Xmat.Cols)
 	return m.PartialFit(X, Y)
-- 
2.43.0


From 61f3026065a90971fa0453d0a99694ed9b2d7190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:12 +0000
Subject: [PATCH 42/84] fix: partially fitting a clone of a scaler does not
 change the original

---
 preprocessing/data.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 9920404..79693c1 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -42,6 +42,11 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	for _, m := range []**mat.Dense{&clone.Scale, &clone.Min, &clone.DataMin, &clone.DataMax, &clone.DataRange} {
+		if *m != nil {
+			*m = mat.DenseCopyOf(*m)
+		}
+	}
 	return &clone
 }
 
@@ -146,6 +151,11 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	for _, m := range []**mat.Dense{&clone.Scale, &clone.Mean, &clone.Var} {
+		if *m != nil {
+			*m = mat.DenseCopyOf(*m)
+		}
+	}
 	return &clone
 }
 
@@ -926,6 +936,8 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	clone.MaxAbs = append([]float64(nil), m.MaxAbs...)
+	clone.Scale = append([]float64(nil), m.Scale...)
 	return &clone
 }
 
-- 
2.43.0


From 8da41bf97b972dbeeb09059cf1cf6892653c59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:44 +0000
Subject: [PATCH 43/84] fix: LabelEncoder counts the support of a new class
 from zero

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..87d5a69 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -314,7 +314,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From 7835d9840c3b7b83ba354a1745c7323e7afc51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:44 +0000
Subject: [PATCH 44/84] fix: partially fitting a clone of LabelEncoder does not
 change the original

---
 preprocessing/label.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 87d5a69..f5bf76a 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -281,6 +281,11 @@ func NewLabelEncoder() *LabelEncoder { return &LabelEncoder{} }
 // TransformerClone ...
 func (m *LabelEncoder) TransformerClone() base.Transformer {
 	clone := *m
+	clone.Classes, clone.Support = nil, nil
+	for i := range m.Classes {
+		clone.Classes = append(clone.Classes, append([]float64(nil), m.Classes[i]...))
+		clone.Support = append(clone.Support, append([]float64(nil), m.Support[i]...))
+	}
 	return &clone
 }
 
-- 
2.43.0


From 1935d06352bf534c1e3b8568c358000f20bec54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:35 +0000
Subject: [PATCH 45/84] fix: running variance of an incremental fit squares the
 mean difference elementwise

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 79693c1..ce3ec8a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -534,8 +534,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From 6ba131a980d5c88f41d490f46c2c3eb54230949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:36 +0000
Subject: [PATCH 46/84] fix: a cloned perceptron owns its batch norms and its
 loss and validation curves

---
 neural_network/basemlp32.go | 8 ++++++++
 neural_network/basemlp64.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index ff34d84..28dea62 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -591,6 +591,14 @@ func (mlp *BaseMultilayerPerceptron32) ownParameters() {
 		coefs[i].Data = mem[off+len(intercepts[i]):]
 	}
 	mlp.packedParameters, mlp.Coefs, mlp.Intercepts = mem, coefs, intercepts
+	batchNorm := make([][]float32, len(mlp.batchNorm))
+	for i := range batchNorm {
+		batchNorm[i] = append([]float32(nil), mlp.batchNorm[i]...)
+	}
+	mlp.batchNorm = batchNorm
+	// a warm start appends to the curves
+	mlp.LossCurve = append([]float32(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float32(nil), mlp.ValidationScores...)
 	mlp.optimizer = nil
 }
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index cd92752..76b78c3 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -591,6 +591,14 @@ func (mlp *BaseMultilayerPerceptron64) ownParameters() {
 		coefs[i].Data = mem[off+len(intercepts[i]):]
 	}
 	mlp.packedParameters, mlp.Coefs, mlp.Intercepts = mem, coefs, intercepts
+	batchNorm := make([][]float64, len(mlp.batchNorm))
+	for i := range batchNorm {
+		batchNorm[i] = append([]float64(nil), mlp.batchNorm[i]...)
+	}
+	mlp.batchNorm = batchNorm
+	// a warm start appends to the curves
+	mlp.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
 	mlp.optimizer = nil
 }
 
-- 
2.43.0


From 7c771041e5b3aea430bf3a270c1e846733e9b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:15 +0000
Subject: [PATCH 47/84] fix: MaxAbsScaler.PartialFit can be the first call on a
 new scaler

---
 preprocessing/data.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ce3ec8a..3b76409 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -944,16 +944,17 @@ func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 // Fit for MaxAbsScaler ...
 func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-	Xmat := X.RawMatrix()
 	m.NSamplesSeen = 0
-	m.MaxAbs = make([]float64, Xmat.Cols)
-	m.Scale = make([]float64, Xmat.Cols)
 	return m.PartialFit(X, Y)
 }
 
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	if m.NSamplesSeen == 0 {
+		m.MaxAbs = make([]float64, Xmat.Cols)
+		m.Scale = make([]float64, Xmat.Cols)
+	}
 	for jX := 0; jX < Xmat.Rows*Xmat.Stride; jX = jX + Xmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
 			if v < 0. {
-- 
2.43.0


From 3d45b17716c345c45aac8bb334b2475267361a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:01 +0000
Subject: [PATCH 48/84] fix: tanh activation of the perceptrons is tanh(z), as
 its derivative assumes

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 28dea62..5611e35 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 76b78c3..aafbd76 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From ce12401b986147ea18247a6158e4a504a10bf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:15 +0000
Subject: [PATCH 49/84] fix: an lbfgs fit stopped before its first iteration
 keeps the evaluated loss

---
 linear_model/logistic.go    | 7 +++++--
 neural_network/basemlp32.go | 9 ++++++---
 neural_network/basemlp64.go | 9 ++++++---
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index f8dd282..68dbd61 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -447,8 +447,11 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
-	copy(m.packedParameters, res.X)
-	m.Loss = res.F
+	// (res.F is infinite when not even one iteration was completed)
+	if !math.IsInf(res.F, 1) {
+		copy(m.packedParameters, res.X)
+		m.Loss = res.F
+	}
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 5611e35..8107fd1 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -756,10 +756,13 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
-	for i := range res.X {
-		mlp.packedParameters[i] = float32(res.X[i])
+	// (res.F is infinite when not even one iteration was completed)
+	if !M32.IsInf(float32(res.F), 1) {
+		for i := range res.X {
+			mlp.packedParameters[i] = float32(res.X[i])
+		}
+		mlp.Loss = float32(res.F)
 	}
-	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index aafbd76..ac126fe 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -756,10 +756,13 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
-	for i := range res.X {
-		mlp.packedParameters[i] = float64(res.X[i])
+	// (res.F is infinite when not even one iteration was completed)
+	if !M64.IsInf(float64(res.F), 1) {
+		for i := range res.X {
+			mlp.packedParameters[i] = float64(res.X[i])
+		}
+		mlp.Loss = float64(res.F)
 	}
-	mlp.Loss = float64(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From 794264b9fd6644253182c1017ac900eb14b87ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:38 +0000
Subject: [PATCH 50/84] fix: KMeans terminates when rows are equidistant from
 several centroids

---
 cluster/kmeans.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..2c891f3 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -2,11 +2,13 @@ package cluster
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 	"sync"
 
 	"github.com/pa-m/sklearn/base"
 
+	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -73,9 +75,15 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.NJobs = runtime.NumCPU()
 	}
 
+	// rows equidistant from several centroids may change their label forever because of
+	// rounding errors, so moves of the centroids below tol do not count as changes
+	tol := 1e-12 * math.Max(math.Abs(mat.Max(X)), math.Abs(mat.Min(X)))
+	previous := make([]float64, m.NClusters*NFeatures)
+
 	for unchangeCount < 2 {
 		epoch++
 		changed = false
+		copy(previous, m.Centroids.RawMatrix().Data)
 		// find nearest centroids
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
 		// recompute centroids
@@ -92,7 +100,7 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				mu.Unlock()
 			}
 		})
-		if changed {
+		if changed && floats.Distance(previous, m.Centroids.RawMatrix().Data, math.Inf(1)) > tol {
 			unchangeCount = 0
 		} else {
 			unchangeCount++
-- 
2.43.0


From 881415bb5514f824e1a90c9caa011a9edab0987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 51/84] fix: Binarizer.Transform indexes its output with the
 stride of the output

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 3b76409..15b1bd5 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -905,13 +905,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, xopos := 0, 0, 0; r < rmx.Rows; r, xpos, xopos = r+1, xpos+rmx.Stride, xopos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[xopos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[xopos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From df78cbdb28a1450849bd73892340af9cf27be65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 52/84] fix: LogisticRegression.Fit accepts strided and mixed
 kinds of matrices

---
 linear_model/logistic.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 68dbd61..474354d 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -337,15 +337,7 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
-	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb := base.ToDense(X), base.ToDense(Y)
 	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
-- 
2.43.0


From 8a25db2741c640643474296d502b4b1879a9de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 53/84] fix: perceptrons accept strided and mixed kinds of
 matrices

---
 neural_network/basemlp32.go | 26 ++++++++------------------
 neural_network/basemlp64.go | 26 ++++++++------------------
 neural_network/general.go   |  8 ++++----
 3 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 8107fd1..430fac7 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -374,9 +374,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -610,10 +610,8 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense32(X).RawMatrix(), ToDense32(Y).RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -642,15 +640,7 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense32(X), ToDense32(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense32(Y, yb)
@@ -1146,8 +1136,8 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ac126fe..dcb010e 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -374,9 +374,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -610,10 +610,8 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense64(X).RawMatrix(), ToDense64(Y).RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -642,15 +640,7 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense64(X), ToDense64(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense64(Y, yb)
@@ -1146,8 +1136,8 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..c7f5aa8 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,13 +240,13 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // Copy fills receiver with input matrix
@@ -258,7 +258,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
+	if g, ok := a.(*General32); ok && mat.Stride == g.Stride {
 		copy(mat.Data, g.Data)
 	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
@@ -284,7 +284,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
+	if g, ok := a.(General64); ok && mat.Stride == g.Stride {
 		copy(mat.Data, g.Data)
 	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
-- 
2.43.0


From bb129ead5962e7ab2facb74f0d7e36ff9ea67947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:49 +0000
Subject: [PATCH 54/84] fix: KBinsDiscretizer sorts the values it takes
 quantiles of

---
 preprocessing/discretization.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..5d72d62 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -40,6 +41,9 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
 			min, max := floats.Min(tmp), floats.Max(tmp)
+			if m.Strategy == "quantile" {
+				sort.Float64s(tmp) // stat.Quantile needs sorted data
+			}
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
 				switch m.Strategy {
-- 
2.43.0


From b071698054211f0a0dc4a06258b700364ad32991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:13 +0000
Subject: [PATCH 55/84] fix: perceptrons look only at the elements of Y to tell
 classification from regression

---
 neural_network/basemlp32.go | 8 +-------
 neural_network/basemlp64.go | 8 +-------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 430fac7..70465eb 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -506,13 +506,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index dcb010e..b15cb94 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -506,13 +506,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
-- 
2.43.0


From db134e1346206ea9a2b1859a036b45d6b2ff6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:14 +0000
Subject: [PATCH 56/84] fix: perceptron classifiers write predicted classes
 with the stride of the destination

---
 neural_network/basemlp32.go | 4 +---
 neural_network/basemlp64.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 70465eb..e951f41 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -948,9 +948,7 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		FromDense32(General32(Y), Yclasses)
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index b15cb94..be24fda 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -948,9 +948,7 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		FromDense64(General64(Y), Yclasses)
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From b5901e854f0741ced5ebc110b11f5a5470b9e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:50 +0000
Subject: [PATCH 57/84] fix: label binarizers invert every label column, not
 only the first

---
 neural_network/basemlp32.go | 1 -
 neural_network/basemlp64.go | 1 -
 preprocessing/label.go      | 1 -
 3 files changed, 3 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e951f41..267b5f9 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1373,7 +1373,6 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index be24fda..def4410 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1373,7 +1373,6 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
diff --git a/preprocessing/label.go b/preprocessing/label.go
index f5bf76a..74ba130 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -99,7 +99,6 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
-- 
2.43.0


From 8c8dd0b59a33a9eda18ed2e831e6b7996215890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 58/84] fix: Shuffler.InverseTransform swaps the elements of
 rows, not their whole stride

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 15b1bd5..506c395 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -865,12 +865,12 @@ func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
-- 
2.43.0


From 3388ed4af47651da1df3b70430599d532f48ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:14 +0000
Subject: [PATCH 59/84] fix: MaxAbsScaler and OneHotEncoder can be steps of a
 pipeline that predicts

---
 preprocessing/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 506c395..00c8671 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -781,6 +781,9 @@ func (m *OneHotEncoder) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform compute Yout classes from one hot encoded format
 func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	nSamples, _ := X.Dims()
 	nFeatures := len(m.NValues)
 	Yout = Y
@@ -998,6 +1001,9 @@ func (m *MaxAbsScaler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for MaxAbsScaler ...
 func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	Xmat := X.RawMatrix()
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
-- 
2.43.0


From e004233a0754edcaa9d5470e7baaa7c957d6d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 60/84] fix: early stopping of perceptrons restores parameters
 of an epoch even if no validation score is above 0

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 267b5f9..a505063 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -784,7 +784,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		testSize = int(M32.Ceil(mlp.ValidationFraction * float32(nSamples)))
 		XVal = blas32General(General32(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas32General(General32(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float32, len(mlp.packedParameters))
+		mlp.bestParameters = append([]float32(nil), mlp.packedParameters...)
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer32.inverseTransform(yVal)
 	}
@@ -900,7 +900,7 @@ func (mlp *BaseMultilayerPerceptron32) updateNoImprovementCount(earlyStopping bo
 		} else {
 			mlp.NoImprovementCount = 0
 		}
-		if lastValidScore > mlp.BestValidationScore {
+		if len(mlp.ValidationScores) == 1 || lastValidScore > mlp.BestValidationScore {
 			mlp.BestValidationScore = lastValidScore
 			copy(mlp.bestParameters, mlp.packedParameters)
 		}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index def4410..7e6047a 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -784,7 +784,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		testSize = int(M64.Ceil(mlp.ValidationFraction * float64(nSamples)))
 		XVal = blas64General(General64(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas64General(General64(y).RowSlice(nSamples-testSize, nSamples))
-		mlp.bestParameters = make([]float64, len(mlp.packedParameters))
+		mlp.bestParameters = append([]float64(nil), mlp.packedParameters...)
 		// if isClassifier(self):
 		// 	yVal = self.LabelBinarizer64.inverseTransform(yVal)
 	}
@@ -900,7 +900,7 @@ func (mlp *BaseMultilayerPerceptron64) updateNoImprovementCount(earlyStopping bo
 		} else {
 			mlp.NoImprovementCount = 0
 		}
-		if lastValidScore > mlp.BestValidationScore {
+		if len(mlp.ValidationScores) == 1 || lastValidScore > mlp.BestValidationScore {
 			mlp.BestValidationScore = lastValidScore
 			copy(mlp.bestParameters, mlp.packedParameters)
 		}
-- 
2.43.0


From ae9f4ca738ab15f6ab15039383cb61bfb9034229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 61/84] fix: early stopping does not count the first epoch of a
 perceptron as one without improvement

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a505063..6ec3fb3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -895,7 +895,7 @@ func (mlp *BaseMultilayerPerceptron32) updateNoImprovementCount(earlyStopping bo
 		// # use validationScores_, not lossCurve_
 		// # let's hope no-one overloads .score with mse
 
-		if lastValidScore < (mlp.BestValidationScore + mlp.Tol) {
+		if len(mlp.ValidationScores) > 1 && lastValidScore < (mlp.BestValidationScore+mlp.Tol) {
 			mlp.NoImprovementCount++
 		} else {
 			mlp.NoImprovementCount = 0
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 7e6047a..2c1d0fa 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -895,7 +895,7 @@ func (mlp *BaseMultilayerPerceptron64) updateNoImprovementCount(earlyStopping bo
 		// # use validationScores_, not lossCurve_
 		// # let's hope no-one overloads .score with mse
 
-		if lastValidScore < (mlp.BestValidationScore + mlp.Tol) {
+		if len(mlp.ValidationScores) > 1 && lastValidScore < (mlp.BestValidationScore+mlp.Tol) {
 			mlp.NoImprovementCount++
 		} else {
 			mlp.NoImprovementCount = 0
-- 
2.43.0


From bb9c8a461d3ff740045da1876f057ed493a32f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:33 +0000
Subject: [PATCH 62/84] fix: SVM training does not give up while a tried pair
 of multipliers can still move

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 15d99a7..6e19f34 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From d3b9d753c218224181b276a432f7f30412bdc99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:33 +0000
Subject: [PATCH 63/84] fix: constant features do not make coefficients NaN
 when Normalize is set

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 49a63b1..c5f4823 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -650,7 +650,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if FitIntercept && Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
+				if scale == 0. {
+					scale = 1 // a constant feature
+				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
 						Xoutmat.Data[jXout+feature] /= scale
 					}
-- 
2.43.0


From c9ce7433a9b8730dae1dcb082178a5a31103cd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:33 +0000
Subject: [PATCH 64/84] fix: softmax does not overflow on large activations

---
 linear_model/logistic.go    | 6 +++++-
 neural_network/basemlp32.go | 8 +++++++-
 neural_network/basemlp64.go | 8 +++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 474354d..cc36cab 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -80,10 +80,14 @@ var logregActivation = map[string]func(z blas64.General){
 	},
 	"softmax": func(z blas64.General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
+			zmax := math.Inf(-1) // subtracted, so that Exp can't overflow
+			for _, v := range z.Data[zpos : zpos+z.Cols] {
+				zmax = math.Max(zmax, v)
+			}
 			sum := float64(0)
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = math.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = math.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 6ec3fb3..fa6a843 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -103,10 +103,16 @@ var Activations32 = map[string]func(z blas32General){
 	},
 	"softmax": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
+			zmax := M32.Inf(-1) // subtracted, so that Exp can't overflow
+			for _, v := range z.Data[zpos : zpos+z.Cols] {
+				if v > zmax {
+					zmax = v
+				}
+			}
 			sum := float32(0)
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 2c1d0fa..53a7563 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -103,10 +103,16 @@ var Activations64 = map[string]func(z blas64General){
 	},
 	"softmax": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
+			zmax := M64.Inf(-1) // subtracted, so that Exp can't overflow
+			for _, v := range z.Data[zpos : zpos+z.Cols] {
+				if v > zmax {
+					zmax = v
+				}
+			}
 			sum := float64(0)
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 4a1dba5f37ebdcf67311a897abff7282a9fbe01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:33 +0000
Subject: [PATCH 65/84] fix: lbfgs fits keep the best point instead of
 panicking when the line search finds no better one

---
 linear_model/logistic.go    | 9 +++++++--
 neural_network/basemlp32.go | 9 +++++++--
 neural_network/basemlp64.go | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index cc36cab..eb32a38 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -439,7 +439,12 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	switch err {
+	case nil:
+	case optimize.ErrLinesearcherFailure, optimize.ErrNoProgress, optimize.ErrNonDescentDirection:
+		// no better point can be found in floating point arithmetic: res has the best one
+		log.Printf("lbfgs optimizer: %s", err)
+	default:
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
@@ -448,7 +453,7 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		copy(m.packedParameters, res.X)
 		m.Loss = res.F
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	if err == nil && res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
 }
diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index fa6a843..7584636 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -742,7 +742,12 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	switch err {
+	case nil:
+	case optimize.ErrLinesearcherFailure, optimize.ErrNoProgress, optimize.ErrNonDescentDirection:
+		// no better point can be found in floating point arithmetic: res has the best one
+		log.Printf("lbfgs optimizer: %s", err)
+	default:
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
@@ -753,7 +758,7 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		}
 		mlp.Loss = float32(res.F)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	if err == nil && res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 53a7563..0a90cd4 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -742,7 +742,12 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	switch err {
+	case nil:
+	case optimize.ErrLinesearcherFailure, optimize.ErrNoProgress, optimize.ErrNonDescentDirection:
+		// no better point can be found in floating point arithmetic: res has the best one
+		log.Printf("lbfgs optimizer: %s", err)
+	default:
 		log.Panic(err)
 	}
 	// the last evaluation is not always the best one
@@ -753,7 +758,7 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		}
 		mlp.Loss = float64(res.F)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	if err == nil && res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
-- 
2.43.0


From 871c1f90ca9ba34d6224cafc435302ef196b7d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 66/84] fix: MeanStdDev, Var and Std divide by the number of
 rows, not of columns

---
 preprocessing/data.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 00c8671..6534963 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -261,7 +261,7 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
@@ -297,7 +297,7 @@ func (NumpyLike) Var(X mat.Matrix) *mat.Dense {
 			mat.Col(tmp, col, X)
 			floats.AddConst(-mean.At(0, col), tmp)
 			floats.Mul(tmp, tmp)
-			variance.Set(0, col, floats.Sum(tmp)/float64(n))
+			variance.Set(0, col, floats.Sum(tmp)/float64(m))
 		}
 	})
 	return variance
@@ -1420,7 +1420,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 			sumlog1p += tmp
 		}
 		yeoJohnsonTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog1p
 		return -loglike
 	}
@@ -1517,7 +1517,7 @@ func boxCoxOptimize(x []float64) float64 {
 			sumlog += math.Log(xi)
 		}
 		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog
 		return -loglike
 	}
-- 
2.43.0


From 8771fd4039a6799e523f108faeaeda7ea94d33af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 67/84] fix: PolynomialFeatures and KBinsDiscretizer pass Y
 through

---
 preprocessing/data.go           | 2 +-
 preprocessing/discretization.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 6534963..3d9d654 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -651,7 +651,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			}
 		}
 	}
-	Xout = mat.NewDense(nSamples, XoutCols, nil)
+	Xout, Yout = mat.NewDense(nSamples, XoutCols, nil), Y
 
 	for _, pair := range jts {
 		//fmt.Println(jts)
diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 5d72d62..63418bd 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -64,6 +64,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 // Transform discretizes the Data
 func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Yout = base.ToDense(Y)
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
@@ -107,6 +108,9 @@ func (m *KBinsDiscretizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense)
 func (m *KBinsDiscretizer) InverseTransform(X mat.Matrix, Y mat.Mutable) (Xout, Yout *mat.Dense) {
 	NSamples, _ := X.Dims()
 	NFeatures := len(m.BinEdges)
+	if Y != nil {
+		Yout = base.ToDense(Y)
+	}
 	Xout = mat.NewDense(NSamples, NFeatures, nil)
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
 		tmp := make([]float64, NSamples)
-- 
2.43.0


From c6b9c6bd3a45dbb3a75b77796a3aa546dd33dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 68/84] fix: DenseMean ignores the former contents of its
 destination

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 3d9d654..e914b2a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -668,7 +668,8 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 	if Xmean == nil {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
-	Xmean.Apply(func(i int, j int, v float64) float64 {
+	Xmean.Apply(func(i int, j int, _ float64) float64 {
+		v := 0.
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
-- 
2.43.0


From 01ed8970ec4f5521610f44d7f1e9b5e7cd0a3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 69/84] fix: OneHotEncoder decodes to the values it encoded

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index e914b2a..7a0e8f3 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -794,7 +794,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From 7bbf0aa1aa528a023c8509d69b122ce032f47cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 70/84] fix: Normalizer works along rows of any length and
 inverts

---
 preprocessing/data.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7a0e8f3..67a68d4 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1070,7 +1070,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
@@ -1093,7 +1093,11 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	NSamples, NFeatures := X.Dims()
+	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
 	m.mu.Lock()
 	nrmValues := m.nrmValues
 	m.mu.Unlock()
@@ -1101,16 +1105,18 @@ func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
 			mat.Col(tmp, i, X)
-			nrm := nrmValues[i]
-			floats.Scale(nrm, tmp)
+			if nrm := nrmValues[i]; nrm != 0 {
+				floats.Scale(nrm, tmp)
+			}
 			Xout.SetCol(i, tmp)
 		}
 	} else {
 		tmp := make([]float64, NFeatures)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := nrmValues[i]
-			floats.Scale(nrm, tmp)
+			if nrm := nrmValues[i]; nrm != 0 {
+				floats.Scale(nrm, tmp)
+			}
 			Xout.SetRow(i, tmp)
 		}
 	}
-- 
2.43.0


From 6399123067d34945ea6075769a0616db8b816186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 71/84] fix: KernelCenterer accepts kernels with another number
 of rows than columns

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 67a68d4..673bfc8 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1168,7 +1168,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From 1ba91c931cc8ad8fdd9cc638f15aac0c7be6f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 72/84] fix: Yeo-Johnson transforms are defined at lambda 0 and
 2

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 673bfc8..438a6c9 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1443,7 +1443,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1478,7 +1478,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
-- 
2.43.0


From 13b4cb4c029cffca4028fdf1312267fd0ed557a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 73/84] fix: Box-Cox inverse restores values below 1

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 438a6c9..ddc5684 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1556,7 +1556,7 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
+		if xi*lmbda+1 >= 0 {
 			out[pos] = f(xi)
 		} else {
 			out[pos] = math.NaN()
-- 
2.43.0


From c5261f05a8214d049d16ee794a3bc72478700e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 74/84] fix: LabelBinarizer marks the other classes with
 NegLabel

---
 preprocessing/label.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 74ba130..46a21d2 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -67,11 +67,12 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 			cmap[val] = classNo
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
-- 
2.43.0


From e1969fc4307a7ffd84b712847e57570f94f96c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 75/84] fix: LabelEncoder does not give unseen labels the code
 of another class

---
 preprocessing/label.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 46a21d2..9e269fd 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -333,7 +333,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
@@ -356,9 +356,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From 43df1018103677252ef9d096e3c51352807c41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:50 +0000
Subject: [PATCH 76/84] fix: PCA fits data with fewer rows than columns and
 inverts with less than all components

---
 preprocessing/pca.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 1b7f356..9f8d1b4 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -28,7 +28,10 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r // the thin decomposition has no more components than rows
+	}
 	m.SVD = mat.SVD{} // Factorize reuses memory which clones may share
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
@@ -83,9 +86,9 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 17b4fd4544febed81c6ef6b9a3cb342794ef1d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:07 +0000
Subject: [PATCH 77/84] fix: MatRowSlice.Set writes to the row it was asked
 for, and rows past the end are refused

---
 base/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..d1cb87f 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -61,7 +61,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
@@ -69,8 +69,11 @@ func (m MatRowSlice) At(i, j int) float64 {
 
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
+	if i < 0 || i >= m.End-m.Start {
+		panic("indexing error")
+	}
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
-- 
2.43.0


From 8b3140fab51f28cf17109d06f5f81dcbb705dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:40 +0000
Subject: [PATCH 78/84] fix: SetParams converts numbers to the type of the
 field, so that the 32 bits perceptron can be restored

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 7584636..a58482d 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1177,7 +1177,7 @@ func (mlp *BaseMultilayerPerceptron32) SetParams(params map[string]interface{})
 			return strings.EqualFold(s, k)
 		})
 		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+			field.Set(reflect.ValueOf(v).Convert(field.Type()))
 		}
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 0a90cd4..e960883 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1177,7 +1177,7 @@ func (mlp *BaseMultilayerPerceptron64) SetParams(params map[string]interface{})
 			return strings.EqualFold(s, k)
 		})
 		if field.Kind() != 0 {
-			field.Set(reflect.ValueOf(v))
+			field.Set(reflect.ValueOf(v).Convert(field.Type()))
 		}
 	}
 }
-- 
2.43.0


From 13a38f1576a815232921b26d9cff24efbe2ecfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:48 +0000
Subject: [PATCH 79/84] fix: Unmarshal restores hidden layers and regressors,
 forgets earlier labels and refuses inconsistent layers

---
 neural_network/basemlp32.go | 14 +++++++++++++-
 neural_network/basemlp64.go | 14 +++++++++++++-
 neural_network/unmarshal.go |  5 +++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a58482d..d5e29e0 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1211,6 +1211,9 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 			if len(c64) == 0 {
 				return fmt.Errorf("coefs_ must be non-empty")
 			}
+			if len(intercepts2) != len(c64) {
+				return fmt.Errorf("%d layers in intercepts_, %d in coefs_", len(intercepts2), len(c64))
+			}
 			b64coefs := make([]blas64General, len(c64))
 			for i := range b64coefs {
 				b64coefs[i] = blas64FromInterface(c64[i])
@@ -1224,14 +1227,23 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 			layerUnits[0] = NInputs
 			packedSize := 0
 			for il := range c64 {
+				if b64coefs[il].Rows != layerUnits[il] {
+					return fmt.Errorf("coefs_[%d] has %d rows for %d inputs", il, b64coefs[il].Rows, layerUnits[il])
+				}
 				layerUnits[il+1] = b64coefs[il].Cols
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
+			outActivation, isString := mp["out_activation_"].(string)
+			mlp.initialize(mlp.NOutputs, layerUnits, !(isString && strings.EqualFold(outActivation, "identity")), mlp.NOutputs > 1)
+			mlp.lb = nil // labels are those of the restored outputs
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
+				if len(intercept64) != len(mlp.Intercepts[i]) {
+					return fmt.Errorf("intercepts_[%d] has %d values for %d outputs", i, len(intercept64), len(mlp.Intercepts[i]))
+				}
 				for off := 0; off < len(mlp.Intercepts[i]); off++ {
 					mlp.Intercepts[i][off] = float32(intercept64[off])
 				}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index e960883..055e1a8 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1211,6 +1211,9 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 			if len(c64) == 0 {
 				return fmt.Errorf("coefs_ must be non-empty")
 			}
+			if len(intercepts2) != len(c64) {
+				return fmt.Errorf("%d layers in intercepts_, %d in coefs_", len(intercepts2), len(c64))
+			}
 			b64coefs := make([]blas64General, len(c64))
 			for i := range b64coefs {
 				b64coefs[i] = blas64FromInterface(c64[i])
@@ -1224,14 +1227,23 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 			layerUnits[0] = NInputs
 			packedSize := 0
 			for il := range c64 {
+				if b64coefs[il].Rows != layerUnits[il] {
+					return fmt.Errorf("coefs_[%d] has %d rows for %d inputs", il, b64coefs[il].Rows, layerUnits[il])
+				}
 				layerUnits[il+1] = b64coefs[il].Cols
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
-			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
+			copy(mlp.HiddenLayerSizes, layerUnits[1:])
+			outActivation, isString := mp["out_activation_"].(string)
+			mlp.initialize(mlp.NOutputs, layerUnits, !(isString && strings.EqualFold(outActivation, "identity")), mlp.NOutputs > 1)
+			mlp.lb = nil // labels are those of the restored outputs
 
 			for i := 0; i < mlp.NLayers-1; i++ {
 				intercept64 := floats64FromInterface(intercepts2[i])
+				if len(intercept64) != len(mlp.Intercepts[i]) {
+					return fmt.Errorf("intercepts_[%d] has %d values for %d outputs", i, len(intercept64), len(mlp.Intercepts[i]))
+				}
 				for off := 0; off < len(mlp.Intercepts[i]); off++ {
 					mlp.Intercepts[i][off] = float64(intercept64[off])
 				}
diff --git a/neural_network/unmarshal.go b/neural_network/unmarshal.go
index e3f6a1c..6cd2a97 100644
--- a/neural_network/unmarshal.go
+++ b/neural_network/unmarshal.go
@@ -1,5 +1,7 @@
 package neuralnetwork
 
+import "fmt"
+
 func floats64FromInterface(in interface{}) []float64 {
 	t1 := in.([]interface{})
 	t2 := make([]float64, len(t1))
@@ -17,6 +19,9 @@ func blas64FromInterface(in interface{}) blas64General {
 	t2 := blas64General{Rows: rows, Cols: cols, Stride: cols, Data: make([]float64, rows*cols)}
 	for r, pos := 0, 0; r < rows; r, pos = r+1, pos+t2.Stride {
 		t3 := floats64FromInterface(t1[r])
+		if len(t3) != cols {
+			panic(fmt.Errorf("coefs_ has rows of %d and of %d values", cols, len(t3)))
+		}
 		for c := 0; c < cols; c++ {
 			t2.Data[pos+c] = t3[c]
 		}
-- 
2.43.0


From 2d4cf2d1c49c592722dc4872519c9a732ed2adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:54 +0000
Subject: [PATCH 80/84] fix: k-d tree of points a rounding error apart no
 longer splits the same cell for ever

---
 neighbors/kdtree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index baeff32..fb5f443 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -280,7 +280,7 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 			return tr._build(idx, maxes, mins)
 		}
 		split = M
-		lessIdx, greaterIdx = lgfill(split)
+		lessIdx, greaterIdx = lgfill(math.Nextafter(M, m)) // points at M to the greater side: both get fewer points
 	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
-- 
2.43.0


From 4092ccb9fbefb2ddf9ac0bab5952cf8253baf187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:28 +0000
Subject: [PATCH 81/84] fix: Pipeline.Score compares the predictions of the
 last step with the targets it was trained for

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..2746ae9 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
-- 
2.43.0


From cf72cd0ea8704d9e3d8b340f3f7436e15e1feb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:28 +0000
Subject: [PATCH 82/84] fix: Pipeline.Predict with a step that can't be
 inverted no longer panics

---
 pipeline/pipeline.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 2746ae9..b1335e9 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -127,8 +127,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
-		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if inverter, ok := p.NamedSteps[iStep].Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = inverter.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From f3d921f47f8babb8bcfec66c256049019bcb6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:55 +0000
Subject: [PATCH 83/84] fix: EnetPath uses all the strengths it is given,
 whatever NAlphas

---
 linear_model/coordinatedescent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index eddccbc..6928301 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -140,11 +140,11 @@ func alphaGrid(X, Y *mat.Dense, L1Ratio, eps float64, alphas []float64) {
 // EnetPath Compute elastic net path with coordinate descent
 // no preprocessing is done here, you must have called PreprocessData before
 func EnetPath(X, Y *mat.Dense, L1Ratio, eps float64, NAlphas int, Alphas *[]float64, verbose, positive bool) (alphas []float64, coefs []*mat.Dense, dualGaps []float64, nIters []int) {
-	alphas = make([]float64, NAlphas)
 	if Alphas == nil {
+		alphas = make([]float64, NAlphas)
 		alphaGrid(X, Y, L1Ratio, eps, alphas)
-	} else {
-		copy(alphas, *Alphas)
+	} else { // all of the given strengths, whatever NAlphas
+		alphas = append([]float64{}, *Alphas...)
 	}
 	NAlphas = len(alphas)
 	coefs = make([]*mat.Dense, NAlphas)
-- 
2.43.0


From 435305ee2fcfa91cc08464e4ff1d0e808970c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:59 +0000
Subject: [PATCH 84/84] fix: QuantileTransformer sorts its data, transforms all
 columns, values outside the fitted range and repeated quantiles

---
 preprocessing/data.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ddc5684..e6959f1 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1211,6 +1211,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
@@ -1233,12 +1234,23 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	for c := 0; c < nFeatures; c++ {
+		min, max := m.Quantiles.At(0, c), m.Quantiles.At(m.NQuantiles-1, c)
+		for i := 0; i < nSamples; i++ {
+			if x := X.At(i, c); x <= min {
+				Xout.Set(i, c, m.references[0]+eps)
+			} else if x >= max {
+				Xout.Set(i, c, m.references[m.NQuantiles-1]-eps)
+			}
+		}
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
+			if x0 == x1 {
+				continue
+			}
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
-				if x >= x0 && x <= x1 {
+				if x > min && x < max && x >= x0 && x <= x1 {
 					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+(x-x0)/(x1-x0)*(m.references[q+1]-m.references[q]))))
 				}
 			}
-- 
2.43.0

