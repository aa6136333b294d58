#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that wording is edited in one place)."""
import json, os
P = []
F = "padasip/filters/"
ALLF = [F + n for n in ("base_filter.py ap.py gmcc.py gngd.py llncosh.py lmf.py lms.py nlmf.py nlms.py nsslms.py "
        "ocnlms.py rls.py sslms.py vslms_ang.py vslms_benveniste.py vslms_mathews.py").split()]
DET = ["padasip/detection/" + n for n in ("le.py", "elbnd.py", "ese.py", "__init__.py")]
PRE = ["padasip/preprocess/" + n for n in ("standardize.py", "standardize_back.py", "input_from_history.py", "pca.py", "lda.py")]
MIS = ["padasip/misc/error_evaluation.py"]
ANN = ["padasip/ann/mlp.py"]

def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))

p("C01", "What a filter learns does not depend on how the sample stream is delivered",
  "For every adaptive filter and every finite sequence of valid samples, feeding the sequence in one run call, in any partition into consecutive run calls, one sample at a time with adapt (with or without a predict before it, as in the documented real-time loop), or any mixture of these yields the same outputs, errors, weight history and final weights. "
  "pretrained_run(d, x, ntrain, epochs) equals epochs runs over the first int(ntrain*len(d)) samples followed by one run over the rest, with the results of that last run. "
  "It does not matter whether the filter was created from its class, from get_filter, from AdaptiveFilter(model=...) in any letter case, or implicitly by filter_data, nor whether documented defaults are given or left out, nor in which array form (memory layout, byte order, alignment, read-only or view, list of rows) the same numbers arrive.",
  ["schedules", "histories", "inputs", "configurations"],
  "all 15 filters, all parameters in their documented ranges, all delivery schedules (chunk sizes, sample-by-sample, interposed predictions, lost/duplicated/reordered samples that define the delivered sequence), all entry points",
  "The tests call run() once per filter on one seeded array and adapt() once on LMS; no test mixes run, adapt and predict, splits a stream, or calls pretrained_run, filter_data or AdaptiveFilter.",
  [F + "base_filter.py", F + "__init__.py", F + "ap.py", F + "ocnlms.py"] ,
  [("one adaptation step shared by adapt and run; all state between samples is held on the instance", F + "base_filter.py:AdaptiveFilter.adapt/run, AdaptiveFilterAP.adapt/run"),
   ("name-to-class table", F + "__init__.py:FILTERS, filter_data, AdaptiveFilter, get_filter")],
  ["return values of run/pretrained_run/filter_data/predict", "weights w after each call"],
  [("per-filter carried state (AP windows, RLS matrix, GNGD/VSLMS previous sample, OCNLMS memory)", "must continue across call boundaries", F)])

p("C02", "Prediction is a pure read",
  "For every adaptive filter, calling predict any number of times, with any valid input vectors, at any points between training calls never changes the result of any later call: later predictions, outputs, errors and weights are those of the same history without the extra predictions. "
  "Repeating a prediction with the same input and no training in between returns the same value, and for every filter but OCNLMS that value is the inner product of the current weights and the input.",
  ["histories", "schedules", "inputs"],
  "all 15 filters, all placements and numbers of extra predictions among run/adapt calls, including bursts longer than any internal window and reuse of the very array object later passed to adapt",
  "No test calls predict on a filter at all.",
  [F + "base_filter.py", F + "ocnlms.py", F + "ap.py"],
  [("predict only reads the weights", F + "base_filter.py:AdaptiveFilter.predict"), ("OCNLMS predict reads the means of its memory", F + "ocnlms.py:predict/read_memory")],
  ["return values of predict, adapt, run", "weights w"],
  [("OCNLMS memory index", "where the next sample is stored", F + "ocnlms.py:mem_idx")])

p("C03", "Every filter follows its documented adaptation law over any sample history",
  "At every sample of every history, each filter's reported output is the prediction made with the weights held before that sample (the weight-history row of that sample holds exactly those weights), its error is target minus output, and its weights then change by exactly the increment that the filter's documented (or cited) law prescribes from the current sample and the samples seen before. "
  "This covers all 15 filters and all of their parameters; carried quantities (AP window of the last `order` samples, RLS inverse correlation matrix, GNGD regularisation, VSLMS step size, OCNLMS centring over the last `mem` samples) start from their documented initial values and are never reset, skipped or delayed.",
  ["histories", "inputs", "configurations"],
  "all filters, orders/memory sizes/step sizes/initial weights (given or documented defaults), all delivered sample sequences including zero vectors, zero errors, repeats, dropouts, outliers, stuck sensors and long runs",
  "Each test compares one checksum (sum of y over 100 seeded Gaussian samples, n=4, one parameter set); wrong behaviour that needs another size, a zero error, a wrapped memory, a long run or other parameter values is invisible to it.",
  ALLF,
  [("learning_rule of each filter", F), ("adaptation loop", F + "base_filter.py:run/adapt")],
  ["return values of run", "weights w", "predict"],
  [("carried state of each filter", "R, eps, last_e, last_x, last_mu, last_fi, x_mem, d_mem, mem_x, mem_d", F)])

p("C04", "Caller-owned arrays and returned results are never shared with the library",
  "No function or method of the library modifies an array, list or buffer passed to it, and no later modification of such a buffer by its owner (a measurement driver reusing one array for every sample) changes any later result or any state of a filter or network. "
  "Results already returned never change because of later calls, later filters, or later modification of the inputs they came from.",
  ["histories", "schedules", "inputs"],
  "all public functions, filters and networks; all containers, dtypes and memory layouts; all instants between calls at which a caller overwrites or reuses a buffer",
  "Every test builds fresh arrays, passes them once and reads the result immediately; nothing is ever mutated, reused or compared again afterwards.",
  ALLF + DET[:3] + PRE + MIS + ANN,
  [("inputs are copied with np.array / np.copy before being kept or changed", F + "base_filter.py:run/init_weights; padasip/detection/le.py; padasip/detection/ese.py; padasip/misc/error_evaluation.py"),
   ("previous input kept by value", F + "gngd.py, vslms_*.py learning_rule")],
  ["input arrays after each call", "all later return values and weights", "earlier return values"])

p("C05", "Independent objects and calls do not interfere under any interleaving",
  "Any number of filters, networks and stateless function calls that are used at the same time from different threads, one object per thread, or alternately from one thread, each produce exactly the results they produce when used alone. "
  "This holds at every possible switching point, for objects of the same class, size and initial weights, for shared read-only input arrays, and after another object's call failed or was interrupted.",
  ["schedules", "histories", "fault_sequences"],
  "all thread interleavings at instruction-line and bytecode granularity inside the library, all mixes of objects and functions, exceptions raised inside one participant at any point",
  "The tests are single threaded and use one object at a time.",
  ALLF + DET[:3] + PRE + MIS + ANN,
  [("all mutable state is held on instances; modules hold only immutable tables", "padasip/**")],
  ["every return value and weight vector of every participant"])

p("C06", "A checkpoint holds the whole state: crash and restore continue identically",
  "A filter or network that is copied (copy.deepcopy) or pickled at any point between calls and later restored, in the same process or in a freshly started one, continues with exactly the same outputs, errors and weights as the original would have. "
  "The original and the restored object are independent: whatever happens to one (training, overwriting, a crash in the middle of a call) has no effect on the other.",
  ["crash_points", "histories", "configurations"],
  "all filters and the MLP, all checkpoint instants, all crash instants inside a later call, all suffixes of the history",
  "No test copies or serialises an object or interrupts a call.",
  ALLF + ANN,
  [("the instance dictionary is the complete state", F + "base_filter.py; padasip/ann/mlp.py")],
  ["all results after the restore"])

p("C07", "A rejected call leaves the filter or network as it was",
  "A training, prediction, update or test call of a filter or network with mismatched lengths of targets and inputs, a wrong number of input values, targets of a wrong dimension (networks), a non-numeric target, several targets or an input matrix for one sample given to adapt, or an input value that is no number (text, an object, for filters also None) raises an exception, and afterwards the filter (the weights and all later trainings and predictions of the network) behaves in every later call exactly as if the rejected call had never been made. "
  "If the defect is a single bad target or input value inside a multi-sample run, the filter behaves as if exactly some prefix of the samples before the bad one had been given.",
  ["fault_sequences", "histories", "inputs"],
  "all 15 filters, networks, all placements of malformed samples in a stream (short/long/empty vectors, wrong matrix width, ragged matrix, mismatched lengths, text, None or container targets and input values, matrices and several targets for one sample), any continuation",
  "No test passes a malformed argument; none uses a filter after an exception.",
  [F + "base_filter.py", F + "ocnlms.py", F + "ap.py", F + "gngd.py", F + "vslms_benveniste.py", F + "rls.py"] + ANN,
  [("checks and prediction come before any state is changed", F + "base_filter.py:adapt/run"), ("AP stores a sample only after converting it", F + "base_filter.py:AdaptiveFilterAP")],
  ["exception raised", "all later results", "length of weights made by init_weights"])

p("C08", "Weight updates are visible only whole, to observers and after interruption",
  "At every instant at which another thread can look, and after a run or adapt call is cut short by an exception at any point (interrupt, timeout, failed allocation), the weight vector of a filter equals the weights after some whole number of its samples, and the number never goes back. "
  "A prediction made concurrently with training returns the output for one of the weight vectors that were current during that prediction (OCNLMS excepted), and a filter whose law uses only the current sample (LMS, NLMS, LMF, NLMF, SSLMS, NSSLMS, Llncosh, GMCC) can be resumed after an interruption from that sample with the same final result as an uninterrupted run; every other filter stays usable (later valid calls do not fail).",
  ["schedules", "crash_points", "fault_sequences"],
  "all filters, all interleavings of one trainer with concurrent readers, all points inside a call at which an exception may be raised",
  "The tests never observe a filter during a call and never interrupt one.",
  ALLF,
  [("one in-place addition per sample publishes the increment", F + "base_filter.py:run/adapt 'self.w += ...'"), ("prediction reads the weights once", F + "base_filter.py:predict")],
  ["weights w read from another thread or after the exception", "return value of concurrent predict"])

p("C09", "Randomness is drawn only where documented and is reproducible from the seed",
  "Only random initial weights (w=\"random\", MLP construction) and MLP training with shuffle=True consume random numbers; every other call leaves NumPy's global generator and Python's random module exactly as they were, and nothing ever reseeds them. "
  "After the caller seeds the global generator, the same sequence of random-consuming calls gives the same weights and the same shuffles, no matter what other library calls happen in between; without reseeding, successive random initialisations differ. "
  "Random filter weights have mean 0 and standard deviation 0.5; MLP weights have mean 0 and standard deviation 1/sqrt(number of node inputs).",
  ["histories", "schedules", "configurations"],
  "all histories of seeding, construction, training, prediction, scoring and preprocessing calls and draws by other consumers of the generator",
  "Tests seed once, create one object and check a checksum; they never look at the generator's state, at a second object, or at an interposed call.",
  [F + "base_filter.py", "padasip/ann/mlp.py"] + DET[:3] + PRE + MIS,
  [("np.random.normal used only in init_weights and MLP/Layer constructors; np.random.shuffle only under shuffle=True", F + "base_filter.py:init_weights; padasip/ann/mlp.py")],
  ["np.random.get_state(), random.getstate() before and after each call", "weights of created objects"])

p("C10", "Results do not depend on hash order, clock, process or import order",
  "Every public computation returns the same values for the same arguments (and the same seed of the global generator where randomness is documented) in every process: regardless of string-hash randomisation, hash order of label objects, whether class labels are held in a list, tuple or array, wall-clock time and clock jumps, process identity, the order in which modules are imported, and which library calls came before.",
  ["configurations", "schedules", "inputs"],
  "all public functions and filters; all hash seeds and label hash values, clock readings and jumps, import orders, call orders",
  "The suite runs with one pinned hash seed because a test is flaky without it; a result that depends on process-level nondeterminism passes there by luck.",
  PRE + DET + ALLF + MIS + ANN + ["padasip/__init__.py"],
  [("LDA visits classes in a defined order", "padasip/preprocess/lda.py:LDA_base"), ("filter lookup table", F + "__init__.py:FILTERS")],
  ["return values in differently configured processes"])

p("C11", "A missing or broken SciPy disables only ESE",
  "When SciPy, or any part of it, cannot be imported, the library still imports and everything except ESE works with the same results as with SciPy present. "
  "Every call of ESE, with whatever arguments, then raises ImportError; once SciPy is importable again a fresh import provides a working ESE.",
  ["fault_sequences", "configurations"],
  "all points at which an import of SciPy or of one of its modules fails (absent package, broken submodule, failure at the n-th import), all later calls",
  "SciPy is installed where the tests run and no test imports ESE or makes an import fail.",
  ["padasip/detection/__init__.py", "padasip/detection/ese.py", "padasip/__init__.py"],
  [("guarded import with a raising substitute", "padasip/detection/__init__.py:ese_not_imported")],
  ["import outcome", "exception of ESE", "results of all other functions"],
  hook=None)

p("C12", "Novelty scores are causal, window-local and recomputable after a restart",
  "For every detector, scoring a growing weight history as it arrives gives each sample the same score at every later time (ELBND: from the arrival of the sample that follows it, its score being 0 until then), and the score equals the documented formula over that sample's increment and its trailing window; the first m samples (LE) or `window` samples (ESE) score 0 (all samples while an ESE history is not longer than the window). "
  "A monitor that restarts with only the most recent rows gives every sample that lies at least m+order rows (LE), window+1 rows (ESE) or 0 rows (ELBND) after its first kept row the same score as one that never restarted.",
  ["histories", "crash_points", "inputs", "configurations"],
  "all arrival patterns of weight rows, all restart points and retained lengths, all window sizes, orders, sensitivities, functions and threshold methods, all array forms and number types of the same numbers",
  "One whole-history checksum per detector with a single parameter set; ESE is not tested at all; no prefix or truncated history is ever scored.",
  DET[:3],
  [("score k uses only rows before and at k inside the window", "padasip/detection/le.py:learning_entropy; padasip/detection/ese.py:ESE; padasip/detection/elbnd.py:ELBND")],
  ["returned score arrays"])

p("C13", "MLP training is an exact, resumable sequence of backpropagation steps",
  "Training an MLP for any number of epochs, in any split into train calls or explicit predict/update pairs, with any run/test/predict calls between, equals presenting the pairs one by one: the error recorded at each position is target minus the network output before that step, and each step moves every weight by the learning rate times the negative gradient of half the squared error. "
  "The reported MSE of an epoch is the mean over its samples of the squared error (summed over outputs); with shuffle=True every epoch presents every input with its own target exactly once, in an order redrawn for every epoch. run, test and predict never change a weight.",
  ["histories", "schedules", "configurations"],
  "all layer layouts, activations, learning rates, output counts, epoch counts, splits of training, interposed evaluations and shuffles",
  "There is no test of the MLP at all.",
  ANN,
  [("train = predict + update per pair", "padasip/ann/mlp.py:NetworkMLP.train"), ("backpropagation through layers", "padasip/ann/mlp.py:NetworkMLP.update, Layer.update")],
  ["return values of train/run/test/predict/update", "weights of the network and its layers"])

p("C14", "Filters recover after faults, and clean data never makes the estimate worse",
  "On noise-free data from a fixed linear system the distance between a filter's weights and the true ones never increases from sample to sample for LMS when 0 < mu*|x|^2 <= 2, for NLMS and AP when 0 < mu <= 2 (AP: once its window holds only such samples), whatever samples are lost, duplicated or reordered. "
  "After any finite burst of corrupted samples or a change of the system, once clean sufficiently exciting data resumes, LMS, NLMS, AP and RLS (forgetting factor below 1) again identify the system within a bounded number of samples.",
  ["fault_sequences", "histories", "configurations"],
  "all fault bursts (finite outliers, stuck or zeroed sensors, system changes, loss, duplication, reordering, restarts), all sizes and step sizes within the documented stability range",
  "Tests use one stationary noisy system and a checksum; none injects a fault or looks at convergence.",
  [F + n for n in ("lms.py", "nlms.py", "ap.py", "rls.py", "base_filter.py")],
  [("normalised or bounded step of each learning rule", F)],
  ["weights w"])

p("C15", "Segmented preprocessing and error scoring equals whole-series processing",
  "However a series is cut into consecutive segments as it arrives, standardising segments with a fixed offset and scale, undoing it, building history matrices from segments that carry over the last n-1 values, and accumulating error measures (length-weighted MAE and MSE, RMSE from MSE, concatenated logSE) give exactly the result for the whole series: (x-offset)/scale, xs*scale+offset, all windows of n consecutive values in order (plus a last column of ones with bias), mean |e|, mean e^2, its square root and 10*log10(e^2). "
  "Passing two series or their difference is the same, and a restart that keeps only the last n-1 values loses no window.",
  ["schedules", "crash_points", "inputs"],
  "all segmentations and restart points, all window sizes, containers, numeric types and array forms (layout, byte order, alignment, views), both calling forms of the error measures",
  "Tests call each function once on range(1000) or a tiny series and compare one aggregate.",
  PRE[:3] + MIS,
  [("element-wise or window-wise computations without carried state", "padasip/preprocess/*.py; padasip/misc/error_evaluation.py")],
  ["returned arrays and numbers"])

p("C16", "PCA keeps the directions of largest variance",
  "PCA(x, n) projects the samples on the n orthonormal directions of largest variance, so the returned columns are uncorrelated with variances equal to the n largest values of PCA_components(x), which are sorted in descending order.",
  ["inputs"], "all data matrices and all n smaller than the number of columns",
  "One seeded matrix, one rounded mean.", ["padasip/preprocess/pca.py"], [("eigen-decomposition of the covariance", "padasip/preprocess/pca.py")], ["return values"])

p("C17", "LDA projects on the leading discriminant directions",
  "LDA(x, labels, n) projects on the n directions with the largest ratio of between-class to within-class scatter, and LDA_discriminants returns those ratios in descending order.",
  ["inputs"], "all labelled data sets with invertible within-class scatter",
  "One seeded data set, two rounded means.", ["padasip/preprocess/lda.py"], [("eigen-decomposition of the scatter product", "padasip/preprocess/lda.py:LDA_base")], ["return values"])

p("C18", "Invalid arguments of the stateless functions are rejected with ValueError",
  "Unknown error functions, output functions and filter names, series of unequal length, non-numeric series, non-integer or non-positive history lengths and impossible initial weights raise ValueError rather than returning a value.",
  ["inputs"], "all invalid arguments of the stateless functions and constructors",
  "No test passes an invalid argument.", MIS + PRE[:3] + [F + "__init__.py", F + "base_filter.py", "padasip/detection/elbnd.py"],
  [("explicit checks at function entry", "padasip/misc/error_evaluation.py; padasip/preprocess/*.py; padasip/filters/*.py")], ["exception type"])

p("C19", "Default standardisation yields zero mean and unit deviation",
  "standardize without offset and scale returns a series of the same length with mean 0 and standard deviation 1 for every non-constant series.",
  ["inputs"], "all non-constant numeric series", "One call on range(1000).", ["padasip/preprocess/standardize.py"],
  [("mean and std of the input are used", "padasip/preprocess/standardize.py")], ["return value"])

p("C20", "Cancellations reach the caller and failures never pass for success",
  "Whenever a cancellation (KeyboardInterrupt, SystemExit, CancelledError or any other BaseException that is not an Exception) arrives during any call of the library - at any point of its code, or out of a caller-supplied data object that is read while it is used - the call ends with exactly that exception: it is never swallowed and never replaced by another one. "
  "Whenever an operation inside a call fails with an ordinary exception (memory, time-out, I/O, arithmetic), the call either raises an exception or returns exactly what the undisturbed call returns. "
  "A stateless function or a constructor called again afterwards gives its normal result.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "all public functions, filters, networks, factories and the import of the library; all exception types; all lines of the library and all accesses of a lazily read data source as the place of the exception",
  "No test makes anything fail or interrupts a call.",
  ALLF + DET + PRE + MIS + ANN,
  [("input conversion clauses catch Exception only and re-raise ValueError", F + "base_filter.py; padasip/preprocess/*.py; padasip/misc/error_evaluation.py; padasip/ann/mlp.py"),
   ("no other exception handler in adaptation and evaluation loops", "padasip/**")],
  ["exception that leaves the call", "return values of calls in which something failed"])

p("C21", "A computation leaves the process alone and needs nothing from it",
  "Importing the library, constructing objects and calling its functions - successfully, unsuccessfully or cancelled - changes no global state of the process: numpy error handling and print options, warning filters, environment variables, working directory, umask, signal handlers and timers, recursion and resource limits, import paths, standard streams and hooks, garbage collector settings, decimal context, locale, logging configuration, threads, exit handlers and the attributes of other modules are as before, no file descriptor is left open and no file is left behind. "
  "Nothing is written to standard output or standard error, and no file, socket, subprocess, signal or sleep is used. "
  "Results are therefore the same in every process: without usable standard streams, in a removed working directory, without file descriptors or disk space, with an empty environment, under python -O, with other numpy, decimal, warning or garbage collector settings, on any thread and at any stack depth.",
  ["fault_sequences", "histories", "schedules", "configurations"],
  "all public functions, filters, networks and the import; all outcomes of a call; all listed conditions of the process and their combinations",
  "The tests look at returned numbers only, in one ordinary process.",
  ALLF + DET + PRE + MIS + ANN,
  [("computations use numpy on their arguments and instance attributes only", "padasip/**"), ("explicit raises, not assertions, validate arguments", "padasip/**")],
  ["process state before and after every call", "audit events during the call", "results in different processes"])

p("C22", "Memory and work per sample stay bounded over any history",
  "However long a filter, a network or a program that calls the library lives, the memory it holds does not grow with the number of samples, calls, objects made or calls that failed or were cancelled; "
  "objects that the program drops are freed at once; the work of one operation (executed library code) does not depend on how much was processed before; "
  "and the memory one call of run, pretrained_run, filter_data, a detector, preprocessing or error function needs is proportional to the length of its data for windows and sizes of a given length, not to the square.",
  ["histories", "fault_sequences", "inputs"],
  "all filters, networks and stateless functions; histories mixing successful, rejected, failing and cancelled calls, copies and new objects",
  "Tests make one short call per object; growth is visible over long histories only.",
  ALLF + DET + PRE + MIS + ANN,
  [("filters keep windows of fixed size (x_mem, d_mem, mem_x, mem_d, R, last_x) and only the weight history of the last run", F + "*.py"),
   ("functions keep nothing between calls", "padasip/detection/*.py; padasip/preprocess/*.py; padasip/misc/error_evaluation.py")],
  ["traced memory at the ends of equal periods", "weak references to dropped objects", "executed library lines of an operation", "peak memory of a call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
