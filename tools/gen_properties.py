#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=list(dict.fromkeys(files)), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Parallel loop helper runs every index exactly once, then returns",
  "For every worker count (including zero and negative, meaning one worker per CPU) and every number of samples, the parallel loop helper hands its callback a set of ranges inside [0,n) that covers each index exactly once. Every concurrently running callback gets its own worker number, which is at least 0 and below the effective worker count. The call returns only after every callback has finished, and everything the callbacks wrote is then visible to the caller.",
  ["schedules", "inputs", "configurations"], "all worker counts, sample counts, CPU counts and interleavings of the workers with each other and with the caller",
  "one test runs 40 samples on 4 workers; estimators' tests use a few fixed sizes on the machine's own CPU count and whatever schedule the Go runtime picks",
  ["base/parallel.go"], [("chunking and wait group", "base/parallel.go:Parallelize")],
  observe=["callback arguments", "return of the call"])

p("C02", "No data race inside any parallel library call",
  "When one goroutine makes one call into the library (fit, predict, transform, score, cross-validate, grid search, sample generation), no two of the goroutines which that call starts, nor the caller, access the same memory without a happens-before order when one of the accesses is a write. This holds for every option combination that selects a parallel code path and for every schedule and CPU count.",
  ["schedules", "inputs", "configurations"], "every public operation with internal parallelism, every option that changes its parallel path, all schedules and CPU counts",
  "the test suite is not run under a race detector, and tests reach only some of the option combinations with enough rows for more than one worker",
  ["base/parallel.go", "cluster/kmeans.go", "cluster/dbscan.go", "neighbors/kdtree.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/unsupervised.go", "neighbors/nearest_centroid.go", "naive_bayes/naivebayes.go", "linear_model/Base.go", "linear_model/coordinatedescent.go", "linear_model/logistic.go", "neural_network/basemlp64.go", "neural_network/basemlp32.go", "svm/svm.go", "datasets/samples_generator.go", "model_selection/validation.go", "model_selection/search.go", "preprocessing/itertools.go"],
  [("disjoint row ranges per worker", "every base.Parallelize call"), ("mutexes around shared accumulators", "cluster/kmeans.go, naive_bayes/naivebayes.go"), ("channels between producer and consumer", "preprocessing/itertools.go, model_selection/split.go, linear_model/Base.go")])

p("C03", "Results do not depend on schedule, CPU count or number of jobs",
  "Fitting, predicting, transforming or scoring with the same data, hyperparameters and seeded random state gives the same result whatever the goroutine schedule, the number of CPUs, and the number of jobs requested. Results are bit-for-bit the same, except where a floating-point sum is merged from several workers, where they agree to rounding.",
  ["schedules", "inputs", "configurations"], "all schedules, CPU counts and job counts, for every estimator with an internally parallel operation",
  "tests run on one machine with one CPU count and never control the schedule, so order-dependent merging or per-CPU chunking shows up only as rare flakiness",
  ["cluster/kmeans.go", "cluster/dbscan.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "naive_bayes/naivebayes.go", "linear_model/Base.go", "linear_model/coordinatedescent.go", "neural_network/basemlp64.go", "svm/svm.go", "svm/svr.go", "preprocessing/data.go", "preprocessing/data.go", "model_selection/validation.go", "model_selection/search.go"],
  [("each worker writes only its own rows", "base.Parallelize callers"), ("results placed by index, not by arrival", "linear_model/Base.go:LinFitGOM, model_selection/validation.go")])

p("C04", "Cross-validation fits and scores each fold exactly once, on its own rows",
  "Cross-validation fits one fresh copy of the caller's estimator per split, on exactly that split's training rows in the split's order, and scores exactly that split's test rows with the caller's scorer; the i-th score and the i-th returned estimator belong to the i-th split the splitter produced. Sorting a result puts the best score first and keeps each fold's score, times and estimator together. The caller's estimator and data are left unmodified. All of this holds for any number of jobs, any schedule, and any splitter whose train and test rows are disjoint.",
  ["schedules", "inputs", "configurations"], "all splitters (fold counts, sizes, overlapping or empty parts), job counts, schedules, estimators and scorers",
  "the one example uses 3 folds of one dataset and prints rounded scores; it cannot see folds swapped, shared estimators or a schedule-dependent slot",
  ["model_selection/validation.go", "model_selection/split.go"],
  [("per-split clone and per-split slot", "model_selection/validation.go:CrossValidate")],
  [("TestScore, Estimator", "one slot per split", "model_selection/validation.go")])

p("C05", "Grid search evaluates the full grid once and picks its true optimum",
  "Grid search evaluates every combination of the parameter grid exactly once, each on a copy of the estimator carrying exactly those parameters (of any type) and on the same splits as every other combination; column values and score at index i of the results describe the same combination. The best index, score, parameters and estimator are those of the optimum of the score column, ties resolved the same way on every run. None of it depends on the number of jobs, the schedule or map iteration order.",
  ["schedules", "inputs", "configurations"], "all grids, estimators, scorers, score directions, job counts, schedules and map iteration orders",
  "one example checks the winner of one grid on one machine; Go randomises map order and scheduling on each run, so tests sample one order per run",
  ["model_selection/search.go", "model_selection/validation.go"],
  [("estimator and splitter clone per combination", "model_selection/search.go:Fit"), ("index-aligned result columns", "model_selection/search.go:Fit")])

p("C06", "K-fold split stream: complete, disjoint, unaliased, closed",
  "The split stream of a k-fold splitter delivers exactly its number of splits and is then closed, however slowly or concurrently it is consumed. In each split the train and test indices are disjoint and together are exactly the rows of the data, test parts of all splits add up in size to the number of rows and differ by at most one row, and a split already received never changes afterwards. A clone of a splitter with a seeded random state produces the same splits as the original would have, and consuming one does not disturb the other.",
  ["schedules", "inputs", "configurations"], "all sample counts, fold counts, shuffling modes, random sources and producer/consumer interleavings",
  "tests print one split set consumed eagerly by one goroutine; buffer reuse between the producer goroutine and a slow consumer only shows under other interleavings",
  ["model_selection/split.go"],
  [("producer goroutine with fresh index slices per split", "model_selection/split.go:KFold.Split")])

p("C07", "The locked random source is linearizable",
  "Draws, reseeds, locked sections and clones of one locked random source made by any number of goroutines behave as if executed one at a time in some order consistent with real time: no draw is lost, repeated or torn, a locked section sees no foreign draw inside it, and a clone continues exactly from the state at one instant. There is no data race among them.",
  ["schedules", "histories"], "all histories of concurrent draw, seed, locked-section and clone operations and all their interleavings",
  "no test uses a source from two goroutines",
  ["base/source.go"], [("mutex around the generator state", "base/source.go:LockedSource")])

p("C08", "A fitted model can be used by many goroutines at once",
  "Predict, predict-probabilities, decision, transform, score, and neighbour-query calls made concurrently by several goroutines on one fitted model return exactly what the same calls return one after another. They do not race with each other and do not change the model.",
  ["schedules", "inputs", "configurations"], "all fitted estimators and transformers with a read-only query, all sets of concurrent callers, all schedules",
  "tests call predict from one goroutine only",
  ["neighbors/kdtree.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/nearest_centroid.go", "cluster/kmeans.go", "naive_bayes/naivebayes.go", "linear_model/Base.go", "linear_model/logistic.go", "neural_network/basemlp64.go", "svm/svm.go", "preprocessing/data.go", "preprocessing/data.go", "pipeline/pipeline.go"],
  [("queries write only to their own output matrix", "Predict/Transform methods")])

p("C09", "Copies of an estimator are isolated from each other",
  "After an estimator, fitted or not, has been cloned, fitting any of the copies or the original, one after another or at the same time from several goroutines, gives each exactly the model it would have got alone, and never changes the parameters or predictions of another copy.",
  ["schedules", "histories", "inputs"], "all estimators with a clone operation, all sequences and interleavings of fits on original and clones, cloned before or after a fit",
  "clone tests compare printed structs right after cloning; none fits two copies concurrently or clones a fitted model and refits it",
  ["linear_model/Base.go", "linear_model/logistic.go", "linear_model/coordinatedescent.go", "naive_bayes/naivebayes.go", "neural_network/multilayer_perceptron.go", "cluster/kmeans.go", "cluster/dbscan.go", "neighbors/classification.go", "svm/svm.go", "svm/svr.go", "pipeline/pipeline.go", "preprocessing/data.go"],
  [("PredicterClone / TransformerClone copy struct and random state; Fit allocates fresh learned state", "every estimator")])

p("C10", "A seeded random state makes results reproducible",
  "With an explicitly seeded random state, generating samples, shuffling, splitting and fitting give bit-identical results on every run: they do not depend on wall-clock time, on map iteration order, on the process-wide random generator, on the CPU count, or on the schedule.",
  ["schedules", "inputs", "configurations", "fault_sequences"], "all operations taking a random state, all clock readings and clock jumps, states of the global generator, map orders, CPU counts and schedules",
  "tests fix the seed and the machine but not clock, map order or schedule; a hidden dependence on them appears only as a flaky example",
  ["base/source.go", "datasets/samples_generator.go", "model_selection/split.go", "cluster/kmeans.go", "neural_network/basemlp64.go", "linear_model/logistic.go", "svm/svm.go", "preprocessing/data.go"],
  [("RandomState parameter threaded through", "every randomised operation")])

p("C11", "Fitting and predicting never modify the caller's data",
  "No fit, predict, transform, score, cross-validation or grid-search call writes to the feature or target matrices it was given, not even temporarily: another goroutine reading or fitting on the same matrices at any moment sees them unchanged and there is no data race.",
  ["schedules", "inputs", "configurations"], "all estimators and options, all moments at which another goroutine looks at the data, all schedules",
  "tests check models, not their inputs; a temporary in-place change that is undone before the call returns is invisible to any sequential test",
  ["linear_model/Base.go", "linear_model/coordinatedescent.go", "neural_network/basemlp64.go", "cluster/kmeans.go", "preprocessing/data.go", "model_selection/validation.go", "svm/svm.go", "naive_bayes/naivebayes.go", "base/matrix.go"],
  [("copies are made before centring, scaling or shuffling", "linear_model/Base.go:PreprocessData and Fit methods")])

p("C12", "Polynomial features enumerate every feature combination once, in order",
  "For every feature count, degree, interaction-only and bias option, the polynomial expansion has one output column per combination of at most the given degree, in graded lexicographic order, each equal to the product of the combination's features; no combination is lost, repeated or corrupted by the interleaving of the generating goroutine with the consumer.",
  ["schedules", "inputs", "configurations"], "all feature counts, degrees, options and producer/consumer interleavings",
  "the examples expand two features to degree two; a generator that reuses its buffer is wrong only when the producer runs ahead of the consumer",
  ["preprocessing/itertools.go", "preprocessing/data.go"],
  [("generator goroutine yields a copy of its state over an unbuffered channel", "preprocessing/itertools.go")])

p("C13", "Every point of a regularisation path is the solution for its own strength",
  "In a regularisation path computed for a list of strengths, the coefficients and dual gap at position i solve the elastic-net problem for the i-th strength of the returned list and for no other, to the requested tolerance, whatever order the concurrent solves finish in.",
  ["schedules", "inputs", "configurations"], "all data, strength lists, mixing ratios, single and multiple outputs, and all interleavings of the per-strength goroutines",
  "one example prints a path on one schedule; slots swapped or shared between goroutines need a particular finishing order",
  ["linear_model/coordinatedescent.go", "linear_model/coordinatedescent.go"],
  [("one goroutine per strength writing its own slot", "linear_model/coordinatedescent.go:EnetPath")])

p("C14", "Each target column is fitted by itself and stored in its own place",
  "For a multi-output least-squares or gradient-fitted linear model, support vector machine, or nearest-neighbour regressor or classifier, the parameters and predictions for output column j are those of fitting column j alone, whatever order the per-output work finishes in and however many CPUs run it.",
  ["schedules", "inputs", "configurations"], "all numbers of outputs, option combinations, CPU counts and completion orders of the per-output work",
  "multi-output tests use two outputs, one schedule, and compare only aggregate scores",
  ["linear_model/Base.go", "linear_model/coordinatedescent.go", "svm/svm.go", "svm/svr.go", "neighbors/regression.go", "neighbors/classification.go"],
  [("per-output result carries its output index", "linear_model/Base.go:LinFitGOM"), ("one model per output", "svm/svm.go")])

p("C15", "Dataset loading gives exactly the file's data or fails loudly",
  "Whatever the file system does while a dataset file is read - short reads, data returned together with end of file, failing opens, read errors at any byte, truncation or corruption of a compressed or length-prefixed file - a loader either returns exactly the data stored in the file or fails visibly; it never returns partial or altered data as if it were complete, and legal short reads alone never make it fail. Nothing of an earlier load shows in a later one, whatever the caller did with the matrices it got. Either way no file is left open.",
  ["fault_sequences", "inputs"], "all sequences of read results the file system may legally return, and all positions of an error, truncation or corruption",
  "tests read intact local files that the kernel returns in full buffers; no read ever fails or comes back short",
  ["datasets/base.go", "datasets/octave.go"],
  [("error checks after open/read/decode", "datasets/base.go, datasets/octave.go")],
  observe=["returned matrices", "panic or error"])

p("C16", "Cross-validation times measure their own fold with the monotonic clock",
  "The fit time and score time reported for fold i are the elapsed (monotonic) time between the start and the end of fitting, respectively scoring, fold i, whatever else runs at the same time and however the wall clock is stepped; they are never negative.",
  ["schedules", "fault_sequences"], "all schedules of concurrent folds, durations of fit and score, and wall-clock jumps",
  "times on a real clock are never compared with anything in the tests",
  ["model_selection/validation.go"],
  [("per-fold start times and slots", "model_selection/validation.go:CrossValidate")])

p("C17", "Every library call terminates and leaves no goroutine behind",
  "Every call into the library returns after a bounded number of steps under every schedule, with no deadlock between the goroutines it starts, and once it has returned (and, for a stream of splits, once the stream has been drained) none of the goroutines it started is still alive.",
  ["schedules", "inputs", "configurations"], "every public operation which starts goroutines, all options, CPU counts and schedules, including schedules in which any one goroutine is stalled for arbitrarily long",
  "a test that passes says one schedule terminated; nothing checks for goroutines left blocked on a channel",
  ["base/parallel.go", "linear_model/Base.go", "linear_model/coordinatedescent.go", "preprocessing/itertools.go", "model_selection/split.go", "model_selection/validation.go", "cluster/kmeans.go"],
  [("wait groups, channel close, buffered result channel", "the files named")])

p("C18", "Neighbour searches return exactly the brute-force answer",
  "K-nearest-neighbour, radius, k-d-tree and neighbour-based classification and regression queries return, for every query point, what an exhaustive search over all training points gives (distances, indices up to exact ties, votes, averages), and density clustering labels follow from those neighbourhoods, independent of how queries are divided among workers.",
  ["schedules", "inputs", "configurations"], "all training and query sets (duplicates, ties, collinear, single points), neighbour counts, radii, metrics, algorithms, leaf sizes, weights, worker counts and schedules",
  "tests query a handful of points on iris-sized data; per-worker scratch space reused across queries or boundary cells skipped needs particular data and division of work",
  ["neighbors/kdtree.go", "neighbors/unsupervised.go", "neighbors/classification.go", "neighbors/regression.go", "neighbors/distance.go", "cluster/dbscan.go"],
  [("k-d tree search with per-worker row ranges", "neighbors/kdtree.go, neighbors/unsupervised.go")])

p("C19", "K-means: labels are nearest centroids and centroids are means of their points",
  "In every run of k-means, predicted labels are those of a nearest centroid for every row, each non-empty cluster's centroid after a converged fit is the mean of the rows labelled with it (every row counted exactly once), and running more iterations never increases the within-cluster sum of squares, whatever the number of jobs, CPU count and schedule.",
  ["schedules", "inputs", "configurations"], "all data (including duplicated rows and empty clusters), cluster counts, job counts, CPU counts, schedules and seeds",
  "one example fits well-separated blobs and checks final labels; a lost or doubled contribution to a shared sum perturbs centroids slightly and only under some interleavings",
  ["cluster/kmeans.go"], [("mutex-protected centroid and count accumulation", "cluster/kmeans.go:Fit")])

p("C20", "Refitting forgets the previous fit",
  "Fitting an estimator again, on the same or on different data (other sizes, features, classes or outputs), gives exactly the model that a fresh estimator with the same hyperparameters and random state gives, unless warm start was requested.",
  ["histories", "inputs", "schedules"], "all estimators, all sequences of fits on one object",
  "tests fit each object once",
  ["linear_model/Base.go", "linear_model/logistic.go", "linear_model/coordinatedescent.go", "naive_bayes/naivebayes.go", "cluster/kmeans.go", "cluster/dbscan.go", "neighbors/classification.go", "neural_network/basemlp64.go", "svm/svm.go", "preprocessing/data.go", "model_selection/search.go"],
  [("Fit re-initialises learned state", "every estimator")])

p("C21", "Class statistics count every training row exactly once",
  "Class counts, priors, means and variances of the naive Bayes model (after a full fit or after any sequence of partial fits) and the centroids of the nearest-centroid model equal those computed directly from all training rows (with their weights), and predictions follow from them, whatever the CPU count and the schedule.",
  ["schedules", "inputs", "histories"], "all data, class sets, weights, partitions of the data into partial fits, CPU counts and schedules",
  "tests use six rows and two classes, in one or two batches; a row skipped at a worker's range boundary needs other sizes",
  ["naive_bayes/naivebayes.go", "neighbors/nearest_centroid.go"],
  [("per-class or per-feature ranges with merged sums", "naive_bayes/naivebayes.go, neighbors/nearest_centroid.go")])

p("C22", "Concurrent optimisation reports what it evaluated",
  "When a linear model, logistic regression or perceptron is trained by an iterative optimiser, the loss history it exposes has one entry per iteration (or evaluation) in order, the best loss is the smallest of that history, and the returned parameters are ones that were really evaluated. With a quasi-Newton optimiser, the reported loss is the loss of the parameters the model ends up with and is not above the loss at the start. This holds whatever the number of concurrent evaluations and the schedule.",
  ["schedules", "inputs", "configurations"], "all models with a quasi-Newton or generic optimiser, data, CPU counts and schedules",
  "examples print a final score of one run; a parameter vector overwritten by a later trial evaluation changes it only under some schedules or problems",
  ["neural_network/basemlp64.go", "neural_network/basemlp32.go", "linear_model/logistic.go", "linear_model/Base.go", "base/optimizers.go"],
  [("mutex around loss bookkeeping; final parameters copied from the optimiser's result", "the files named")])

p("C23", "Incremental fits add up to one fit on all rows, in any division",
  "Feeding rows to an incrementally fitted scaler or label encoder in any number of batches of any sizes, interrupted by clones, transforms and full refits, leaves exactly the statistics (counts, extrema, means, variances, classes and their support) of all rows seen since the last full fit, to rounding. Each copy made on the way continues from the state at the moment it was made, whichever of the copies are fed first or at the same time.",
  ["histories", "schedules", "inputs"], "all data, all divisions into batches, all histories of partial fits, fits and clones and all interleavings of the copies",
  "tests call the incremental fit once or twice on one object with equal batches",
  ["preprocessing/data.go", "preprocessing/label.go"],
  [("running counts, means and variances", "preprocessing/data.go:PartialFit, IncrementalMeanAndVar"), ("per-class support counts", "preprocessing/label.go:LabelEncoder.PartialFit")])

p("C24", "Results depend on values, not on how matrices or destinations are stored",
  "Fitting and querying an estimator with matrices of the same values gives the same parameters, predictions and transforms, to rounding, whatever kind of matrix carries the values: plain dense, a window into a larger matrix, a transposed view, or any other implementation of the matrix interface, alone or mixed, and whatever the number of workers and their schedule. Predictions written into a destination the caller gives (fresh, holding old values, a window of a larger matrix that other callers fill at the same time) equal the predictions into a new matrix, and nothing outside the destination changes.",
  ["inputs", "schedules", "configurations"], "all matrices of equal values, all ways of storing them, all destinations and concurrent callers",
  "tests pass plain dense matrices, where the stride equals the number of columns, from one goroutine",
  ["base/matrix.go", "neural_network", "linear_model", "preprocessing", "neighbors"],
  [("conversion between kinds of matrices", "base/matrix.go:ToDense, FromDense"), ("row arithmetic with strides in parallel workers", "neural_network/basemlp64.go, linear_model/logistic.go, preprocessing/data.go"), ("destinations", "neural_network/basemlp64.go:predict")])

p("C25", "The answer for a query row does not depend on the rows asked with it",
  "A fitted estimator's answer for a row (prediction, probabilities, decision value, neighbours, transformed row) is the same, to rounding, whether the row is asked alone or with any other rows, in whatever order and however the rows are divided into batches, by one caller or by several goroutines asking for different batches at the same time, and whatever the number of workers and their schedule. Excluded are transformers that by definition work on the batch as a whole (Normalizer along columns, Shuffler) and DBSCAN, which only labels its training rows.",
  ["inputs", "schedules", "histories"], "all fitted models, all query rows, all divisions into batches and orders, sequential and concurrent, and all worker counts and schedules",
  "tests ask for one batch of a fixed size from one goroutine; chunk boundaries and worker-local buffers move with batch size and worker count",
  ["base/parallel.go", "neighbors", "preprocessing", "svm", "neural_network", "linear_model", "cluster", "naive_bayes"],
  [("rows divided between workers, buffers per worker", "neighbors/*.go, svm/svm.go, cluster/kmeans.go, preprocessing/data.go"), ("batch-shaped scratch memory", "neural_network/basemlp64.go:predict")])

p("C26", "Column-wise transformers treat every column by itself",
  "For the transformers that work column by column (MinMaxScaler, StandardScaler, RobustScaler, MaxAbsScaler, Imputer, KBinsDiscretizer, QuantileTransformer, PowerTransformer, OneHotEncoder, Binarizer and FunctionTransformer on features, LabelEncoder and LabelBinarizer on labels), fitting and transforming a matrix gives, side by side and in order, what fitting and transforming each of its columns alone gives, and the same holds for inverse transforms, whatever the number of workers dividing the columns and their schedule.",
  ["inputs", "schedules"], "all matrices, options, worker counts and schedules",
  "tests use one or two columns with similar contents; a column index off by one, or a buffer shared by the workers that divide the columns, shows only for certain widths and schedules",
  ["preprocessing/data.go", "preprocessing/label.go", "preprocessing/discretization.go", "preprocessing/imputation.go"],
  [("columns divided between workers", "preprocessing/data.go:PowerTransformer"), ("base column of encoded labels", "preprocessing/label.go:LabelBinarizer"), ("base column of encoded features", "preprocessing/data.go:OneHotEncoder")])

p("C27", "Shuffling, splitting and generating data keep rows whole and X and Y in step",
  "Shuffler, TrainTestSplit and the generators keep rows together: every row of X occurs exactly once in the output (over both parts of a split), with its own row of Y beside it, for every seed, random source, matrix kind and stride, and for several goroutines using one source or one fitted shuffler; the inverse of a shuffle restores the original order, the split gives the requested number of test rows, MakeBlobs labels each sample with the centre it was drawn around, and MakeRegression's Y is its X times the returned coefficients plus the bias.",
  ["inputs", "schedules", "histories"], "all data sizes, seeds, matrix kinds and concurrent callers",
  "tests look at one seed and one shape, and a lost or mismatched row leaves the shapes as they were",
  ["preprocessing/data.go", "model_selection/split.go", "datasets/samples_generator.go"],
  [("row swaps of the shuffler and its inverse", "preprocessing/data.go:Shuffler"), ("train and test index sets", "model_selection/split.go:TrainTestSplit"), ("workers generating samples, shuffle of X with Y", "datasets/samples_generator.go:MakeBlobs, MakeRegression")])

p("C28", "A pipeline predicts what its steps, applied by hand, predict",
  "A pipeline's predictions (by Predict, Transform or FitTransform) and score equal those got by fitting each transformer on the output of the one before, fitting the final model on the last output and passing the queries through the fitted steps, whatever the steps (scalers, Binarizer, Imputer, KBinsDiscretizer, Normalizer, PolynomialFeatures, PowerTransformer, PCA, functions, another pipeline, before a regressor or classifier), the number of outputs, the worker counts and schedules, whether the pipeline was cloned or fitted on other data before, and however many goroutines use the fitted pipeline at the same time. A step that changes the targets (LabelEncoder, a function) is undone in predictions and applied to the targets scored against. Asking a pipeline to predict or score does not refit its steps.",
  ["inputs", "schedules", "histories", "configurations"], "all chains of steps, data, fit/clone histories and concurrent callers",
  "tests run one or two chains on one data set from one goroutine, mostly printing a score",
  ["pipeline/pipeline.go"],
  [("passing X and Y from step to step", "pipeline/pipeline.go:Fit, Predict, transformStep"), ("clones of steps", "pipeline/pipeline.go:PredicterClone")])

p("C29", "Perceptron training takes the steps its solver prescribes, epoch by epoch",
  "Training a multilayer perceptron with a stochastic solver follows the textbook algorithm exactly, to rounding, from the initial parameters on: in each epoch every training row is used once, in the order given by the shuffles drawn from the random state (or in the given order without shuffling), in batches of the batch size; each batch's step is the back-propagated gradient of the mean loss plus the L2 penalty, applied by SGD with momentum or Nesterov momentum or by Adam; learning rates follow the constant, inverse-scaling or adaptive schedule; weight decay shrinks the parameters before each batch; the reported losses are those of the epochs; training stops after the stated number of epochs without improvement; early stopping ends with the parameters of the best validation score; and a warm start goes on from where the last fit ended. Networks trained at the same time do not influence one another.",
  ["histories", "inputs", "schedules", "configurations"], "all networks, data, options and random states, over whole training histories",
  "tests check one gradient and the final score of a few trainings; an error in momentum, schedules, stopping, the last batch or a warm start changes a long history a little and still learns",
  ["neural_network/basemlp64.go", "neural_network/basemlp32.go", "neural_network/multilayer_perceptron.go"],
  [("epochs, batches, shuffles in step, stopping", "neural_network/basemlp64.go:fitStochastic, updateNoImprovementCount"), ("gradients", "neural_network/basemlp64.go:backprop"), ("optimiser state", "neural_network/basemlp64.go:SGDOptimizer64, AdamOptimizer64")])

p("C31", "Transformers follow their definitions and invert, under every schedule",
  "Fitted on any finite data stored in any way, with any number of workers, and used by several callers at the same time, every transformer computes what it is defined as: MinMaxScaler, StandardScaler, RobustScaler, MaxAbsScaler and Normalizer scale by the range, deviation, quantile distance, largest magnitude and norm of the data, leaving constant columns finite; Binarizer, Imputer and KBinsDiscretizer apply their threshold, statistic and bin edges; QuantileTransformer gives the position of a value among the quantiles of its column; PowerTransformer applies the documented power transforms with the most likely parameters; PCA projects on the orthonormal principal directions in decreasing order; PolynomialFeatures lists every monomial once; KernelCenterer centres in feature space; Mean, Var, Std, MeanStdDev, DenseMean, Scale and AddDummyFeature compute the statistics of the columns. InverseTransform restores the data wherever the transform is injective (bin centres, projections otherwise), and the other matrix passes through unchanged.",
  ["inputs", "configurations", "schedules"], "all finite matrices, matrix kinds, options, worker counts and concurrent callers",
  "tests check one small matrix per transformer, mostly square or single-column, on one schedule",
  ["preprocessing/data.go", "preprocessing/discretization.go", "preprocessing/imputation.go", "preprocessing/pca.go", "preprocessing/itertools.go"],
  [("per-column workers", "preprocessing/imputation.go, preprocessing/discretization.go, preprocessing/data.go:PowerTransformer"), ("generators feeding PolynomialFeatures over channels", "preprocessing/itertools.go"), ("InverseTransform", "preprocessing/*.go")])
p("C35", "Encoders map classes to codes bijectively, whatever the map order",
  "LabelEncoder, LabelBinarizer, OneHotEncoder and MultiLabelBinarizer (of numbers and of strings) give every class seen when fitting its own code, in the order of the classes and per column, mark it with the stated labels, decode every code to its class, give a label not seen no other class's code where they define a code for it, and pass the other matrix through; the codes do not depend on map iteration order, how matrices are stored, or callers encoding at the same time.",
  ["inputs", "map orders", "schedules"], "all label sets, label values, matrix kinds and concurrent callers",
  "tests encode one small consecutive label set, where codes and values coincide",
  ["preprocessing/label.go", "preprocessing/data.go"], [("classes collected in maps", "preprocessing/label.go:Fit2, preprocessing/data.go:OneHotEncoder"), ("codes", "preprocessing/label.go:Transform, InverseTransform")])
p("C36", "SVM training ends with a feasible, consistent and stationary solution",
  "However the working pairs are drawn, training an SVC or SVR ends with multipliers inside their box [0, C] that satisfy the equality constraint, a dual objective no worse than at the start, an offset consistent with the free support vectors, and stops only after the stated number of passes in a row in which no violating row could be moved together with its drawn partner; the stored support vectors are the training rows with non-zero multipliers; and predictions equal the kernel expansion over them, for every kernel, its parameters, cache size, number of classes or outputs.",
  ["inputs", "configurations", "random draws", "schedules"], "all data, kernels, options and sequences of drawn working pairs",
  "tests check the score of a few fits; a wrong clip, offset or stop rule costs accuracy only on some draws",
  ["svm/svm.go", "svm/svr.go", "svm/cache.go", "svm/kernels.go"],
  [("working pair step and stop rule", "svm/svm.go:svmTrain"), ("prediction", "svm/svm.go:svmPredict"), ("one model per class or output", "svm/svm.go, svm/svr.go:Fit")])
p("C37", "Fitted linear, logistic and LBFGS perceptron models are optima of their problem",
  "A fit ends at an optimum of the problem the estimator states, to its tolerance, for all data including constant, collinear and badly scaled features: LinearRegression satisfies the normal equations; ElasticNet and Lasso satisfy the subgradient conditions of the penalised least squares problem (intercept, normalisation, positivity included); BayesianRidge is the ridge solution of the precisions it reports; SGDRegressor, LogisticRegression and the perceptron trained by LBFGS end with parameters whose objective is no worse than the start's, is the reported loss, and is stationary when the solver reports convergence; finite data never give non-finite parameters; and predictions are those of the fitted parameters.",
  ["inputs", "configurations", "schedules"], "all finite data, options and schedules",
  "tests compare a handful of fits with expected numbers",
  ["linear_model", "neural_network/basemlp64.go"],
  [("preprocessing and intercept", "linear_model/Base.go:PreprocessData"), ("coordinate descent", "linear_model/coordinatedescent.go, linear_model/cdfast.go"), ("lbfgs", "linear_model/logistic.go:fitLbfgs, neural_network/basemlp64.go:fitLbfgs")])
p("C38", "First-order optimisers follow their update rules over whole histories",
  "Over any history of gradients and parameter matrices of any form, each optimiser of package base keeps its own state only: an update applied to the parameters equals the update it returns; momentum follows its recursion; clipping equals pre-clipped gradients; each column evolves as it would alone; the first step descends; Adam, and plain descent, Adagrad, RMSProp and Adadelta with their running sums of squares, follow their recursions; gradients are not modified; and optimisers used at the same time do not influence one another.",
  ["histories", "inputs", "configurations", "schedules"], "all optimisers, options, shapes, matrix forms and gradient histories",
  "tests run one descent per optimiser and check that it converges, which most wrong rules still do",
  ["base/optimizers.go"],
  [("UpdateParams, GetUpdate and state", "base/optimizers.go:SGDOptimizer")])
p("C39", "Models own what they learnt and callers own what they get",
  "After a fit the caller may use the training matrices for something else, at once and while others query the model: no answer, no learnt parameter and no answer of a clone changes, and there is no data race. Answers handed out do not change when the model is asked again, and the caller may overwrite them without changing the model.",
  ["histories", "schedules", "inputs"], "all estimators and transformers, matrix forms, clones, incremental fits and interleavings of overwriting and querying",
  "tests never touch a matrix again after passing it to Fit, nor ask twice and compare",
  ["base", "linear_model", "neighbors", "cluster", "svm", "naive_bayes", "neural_network", "preprocessing", "pipeline", "model_selection"],
  [("training matrices kept as views", "base/matrix.go:ToDense"), ("neighbours keep their rows", "neighbors/unsupervised.go:Fit, neighbors/kdtree.go"), ("buffers reused between folds", "model_selection/validation.go")])
p("C40", "A saved perceptron is restored exactly or loading it fails",
  "A perceptron restored from scikit-learn's JSON answers as the saved network does, whatever its layers, activation and task, in 32 and 64 bits, whatever the receiver had learnt before and whoever else is restoring at the same time. A document that is cut short, or whose weights and intercepts do not fit together, makes the load fail with an error or a panic instead of giving a network that answers something else.",
  ["histories", "fault sequences", "inputs", "schedules"], "all networks with identity, softmax or one logistic output, receivers fitted before or not, truncations and lost or added rows, values and layers, concurrent restores",
  "the one example restores one logistic unit without hidden layers into a fresh classifier, from an intact document",
  ["neural_network/basemlp64.go", "neural_network/basemlp32.go", "neural_network/unmarshal.go"],
  [("parameters and layers", "neural_network/basemlp64.go:Unmarshal"), ("weights from JSON", "neural_network/unmarshal.go:blas64FromInterface")])

# properties outside this family: single-threaded pure functions of their arguments
p("C30", "Regression and classification metrics follow their definitions",
  "Each metric equals its textbook definition for all inputs and weights.", ["inputs"], "all label/score vectors and weights",
  "tests sample a few vectors", ["metrics"], [("formulae", "metrics/*.go")])
p("C32", "Kernels are symmetric, positive semi-definite, with correct gradients",
  "Every covariance kernel evaluates to a symmetric positive semi-definite matrix whose gradient is the derivative with respect to its hyperparameters.", ["inputs", "configurations"], "all point sets and hyperparameters",
  "tests sample a few points", ["gaussian_process/kernels"], [("Eval", "gaussian_process/kernels/kernels.go")])
p("C33", "Interpolators pass through their knots",
  "Every interpolant reproduces the given values at the given abscissae.", ["inputs"], "all strictly increasing abscissae and values",
  "tests sample a few knots", ["interpolate"], [("spline construction", "interpolate/*.go")])
p("C34", "Activation and loss functions and their gradients agree",
  "Each activation's and loss's gradient is the derivative of its value.", ["inputs"], "all finite inputs",
  "tests sample a few values", ["base", "neural_network", "linear_model"], [("gradient code", "neural_network/basemlp64.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
