#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept here so that the text can be edited comfortably)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

E, H, S, SP, V, CV, LOO, HT = ("hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py",
    "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py", "hpelm/modules/hdf5_tools.py")

p("C01", "Training stores the regularised (weighted) least-squares solution",
  "After basic training, the output weights B solve (H'WH + norm*I) B = H'WT, where H is the model's own hidden-layer output on the training inputs, T the training targets, W the diagonal matrix of the samples' class weights (identity unless weighted classification is on) and norm the model's L2 parameter entering exactly once. When that matrix is singular, B is a least-squares solution of the same system. This holds for the in-memory and the out-of-core model and for both CPU solvers.",
  ["inputs", "configurations"], "all N, inputs, outputs, neuron mixes, batch sizes, norms, class weights, both CPU solvers, ELM and HPELM",
  "Tests only check that training runs, or that benchmark accuracy passes a loose threshold: a wrong weight, a doubled regulariser or one dropped cross term passes them.",
  [E, H, S, SP], [("add_data / add_batch accumulate HH, HT", "hpelm/nnets/slfn_python.py:34, hpelm/nnets/slfn.py:134, hpelm/elm.py:220, hpelm/hp_elm.py:92"), ("solve / solve_corr", "hpelm/nnets/slfn.py:164, hpelm/nnets/slfn_python.py:53")],
  [("HH, HT", "accumulated correlation matrices", "SLFN.HH / SLFN.HT"), ("B", "output weights", "SLFN.B")], ["model output weights", "predictions"])

p("C02", "Training statistics do not depend on batching or on how data is split",
  "Feeding the same samples gives the same accumulated correlation matrices, and so the same model, whatever the batch size and however the samples are divided into consecutive data-feeding calls: every sample contributes exactly once, none is skipped or repeated, also when the sample count is no multiple of the batch size.",
  ["inputs", "configurations", "histories"], "all sample counts, batch sizes, numbers of calls and split points, unweighted or with given class weights, ELM and HPELM",
  "The tests train once with one batch size and never compare two splits; the partition of rows into batches is a loop over symbolic bounds.",
  [E, H, S, SP], [("batch loop of ELM.add_data (array_split)", "hpelm/elm.py:245"), ("batch loop of HPELM.add_data (start/stop)", "hpelm/hp_elm.py:150"), ("accumulation in add_batch", "hpelm/nnets/slfn_python.py:34")],
  [("HH, HT", "accumulated correlation matrices", "SLFN.HH / SLFN.HT")], ["get_corr()", "trained weights"])

p("C03", "Out-of-core sample ranges select exactly the requested samples",
  "Given istart and icount, out-of-core training, data feeding, prediction, projection and error evaluation use exactly the samples istart .. min(istart+icount, N)-1, in order; row j of a produced output (array returned, array filled in place, or HDF5 file) belongs to sample istart+j and the output has exactly that many rows. Leaving the range out means all N samples.",
  ["inputs", "configurations"], "all N, istart in [0,N), icount (also beyond the end), batch sizes, sources (file or array), destinations (file, array, none)",
  "Tests use one or two ranges on 3- or 4-row data with a single batch and only check that something happened; a nonzero start with several batches is never compared with the full result.",
  [H], [("range arithmetic in train/add_data/predict/project/_error", "hpelm/hp_elm.py:92-370"), ("asynchronous variants", "hpelm/hp_elm.py:440-590")], (), ["returned arrays", "HDF5 outputs", "returned error"])

p("C04", "Prediction is the hidden-layer output times the weights, row by row",
  "Predicting X returns project(X) multiplied by the output weights: one row per sample, one column per output, each row depending only on its own sample. The result is the same for the in-memory and the out-of-core model, for any batch size, and whether it is returned, written into a given array, or written to an HDF5 file; predicting changes no part of the model.",
  ["inputs", "configurations"], "all X, models with any neuron mix, batch sizes, destinations",
  "Existing tests check that predict runs and that errors are below loose thresholds; equality of the batched, file and in-memory paths is never tested.",
  [E, H, S], [("SLFN._predict / _project", "hpelm/nnets/slfn.py:103-132"), ("ELM.predict / project", "hpelm/elm.py:390-415"), ("HPELM.predict / project batch loops", "hpelm/hp_elm.py:186-299")], (), ["predict() result", "project() result", "HDF5 output"])

p("C05", "Hidden-layer projection applies each neuron's own formula, columns in order",
  "Projecting X gives one column per neuron, grouped by neuron type in order of first addition and in order of addition inside a type. A column is x.w+b for 'lin', 1/(1+exp(x.w+b)) for 'sigm', tanh(x.w+b) for 'tanh', exp(-d(x,w)^2/b) with the city-block, Euclidean or Chebyshev distance for 'rbf_l1', 'rbf_l2', 'rbf_linf', and f(x.w+b) for a custom numpy ufunc f, with that neuron's own w and b.",
  ["inputs", "configurations"], "all X, all neuron lists of any length and mix, all W and B",
  "One test checks a single tanh neuron on three points; other types, the column order over several types and custom functions are never evaluated.",
  [S, E], [("transformation functions", "hpelm/nnets/slfn.py:66-72"), ("_project", "hpelm/nnets/slfn.py:103")], [("neurons", "list of (count, type, W, B)", "SLFN.neurons")], ["project() result"])

p("C06", "Adding neurons extends the layer and keeps every existing neuron",
  "Adding neurons makes the model's hidden layer the old neurons, unchanged, plus the new ones: given W and B are stored in the model's precision for exactly the requested number of neurons, merged behind neurons of the same type, and the total neuron count grows accordingly. Without W or B valid defaults of the right shape are generated: linear neurons copy input features and are capped at the number of inputs, RBF widths are positive. Any previous solution and accumulated training data are discarded.",
  ["inputs", "histories"], "all sequences of additions, all types, counts, given or default W/B",
  "Tests merge two groups once; arbitrary sequences over several types, and the frame condition on the untouched groups, are universally quantified.",
  [E, S], [("ELM.add_neurons", "hpelm/elm.py:251"), ("SLFN.add_neurons merge", "hpelm/nnets/slfn.py:74"), ("SLFN.reset", "hpelm/nnets/slfn.py:94")], [("neurons, L, B", "layer description, neuron count, solution", "SLFN")], ["nnet neurons list", "neuron count", "projection"])

p("C07", "Model selection keeps exactly the selected neurons and retrains on all data",
  "After training with V, CV or LOO the hidden layer consists of exactly the selected neurons, each with its original type, weights and bias, none duplicated or altered. The output weights are those that basic training gives on the complete training set with that reduced layer and the same regularisation and class weights.",
  ["inputs", "configurations", "histories"], "all layers, selections, data sets, classification modes, batch sizes",
  "Tests assert accuracy thresholds or that more than one neuron was kept; whether the kept neurons are the selected ones and the final solve uses all samples and their weights is not observable from them.",
  [V, CV, LOO, S, E], [("_prune", "hpelm/nnets/slfn.py:185"), ("final prune/add/solve in the three selection methods", "hpelm/mss_v.py:81, hpelm/mss_cv.py:120, hpelm/mss_loo.py:92")], [("neurons", "list of (count, type, W, B)", "SLFN.neurons")], ["nnet neurons list", "output weights"])

p("C08", "Model selection picks the best candidate size it evaluated, and terminates",
  "The V, CV and LOO searches always terminate, for any number of neurons from 1 up and any error values; the selected size lies between 1 and the number of ranked neurons (never above kmax), and no size evaluated by the search has a smaller penalised error. The error of a size n is the error, on the held-out data of the method, of the model that uses the n best-ranked neurons, plus n times the same penalty (0.01*e/L, e the error at the largest size L). Cross-validation returns the mean error of the selected size on the folds' test parts.",
  ["inputs", "configurations"], "all numbers of neurons, rankings, error values (ties included), kmax",
  "The interval-halving loop has unboundedly many error landscapes; tests see a handful and assert only that training finished.",
  [V, CV, LOO], [("interval search (MYOPT)", "hpelm/mss_v.py:40-79, hpelm/mss_cv.py:66-107, hpelm/mss_loo.py:42-90")], [("e", "penalised error per size, -1 when not evaluated", "train_v/train_cv/train_loo")], ["number of neurons kept"])

p("C09", "Neuron rankings contain valid, distinct neurons, as many as requested",
  "A neuron ranking, random or by optimal pruning with few or with many outputs, lists distinct indices of existing neurons: all of them without optimal pruning, and min(requested maximum, number of neurons) of them with it (the many-output variant lists at most one per sample). It is returned, not replaced by an error, also for a single neuron and for duplicated neurons.",
  ["inputs", "configurations"], "all H, T, L, kmax, numbers of outputs",
  "Tests run the two ranking algorithms once each on random data and look at nothing they return.",
  [E, "hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py"], [("_ranking", "hpelm/elm.py:530"), ("mrsr i1/i2 bookkeeping", "hpelm/modules/mrsr.py:48-118"), ("mrsr2 rank/nonrank bookkeeping", "hpelm/modules/mrsr2.py:38-130")], (), ["ranking vector"])

p("C10", "A saved model loads back as the same model",
  "Saving a model (to a file or to bytes) and loading it into any model object, whatever that object contained before and whatever its solver, yields the same numbers of inputs and outputs, classification mode, class weights, regularisation, neurons and output weights (converted to the loading object's precision), hence the same predictions. The loading object keeps its own solver kind, precision and batch size, nothing of its former neurons or solution survives, and saving does not change the saved model.",
  ["inputs", "configurations", "histories"], "all models (trained or not, any neuron mix, weights), all prior states of the loading object, both CPU solvers",
  "One test saves and loads one small model into a fresh object; loading into a used object or another solver, and the untrained case with content, are not covered.",
  [E, S], [("_get_output_format / _update_from_output", "hpelm/elm.py:445-505"), ("save/load/dumps/loads", "hpelm/elm.py:417-490")], [("model dictionary", "serialised form", "ELM._get_output_format")], ["loaded model's fields", "predictions"])

p("C11", "The error measure is the documented one, batched or not",
  "error(T, Y) is the mean squared difference for regression, the fraction of rows whose largest output is not the true class for 'c', the fraction of wrong 0.5-thresholded labels for 'ml', and for 'wc' the sum over classes of class weight times the misclassified fraction of that class, divided by the sum of weights (a class without samples counts as error 0). The out-of-core model returns the same value for every batch size, and the value is never negative or NaN for finite data.",
  ["inputs", "configurations"], "all T, Y, weights, batch sizes, classification modes, ELM and HPELM",
  "Tests evaluate 3-row examples with one batch; the batched averages (unequal last batch, absent classes) are universally quantified.",
  [E, H], [("ELM._error", "hpelm/elm.py:510"), ("HPELM._error batch averages", "hpelm/hp_elm.py:330")], (), ["error() result"])

p("C12", "The confusion matrix counts every sample",
  "For single-label classification entry (i,j) of the confusion matrix is the number of samples whose true class is i and predicted class is j, so all entries sum to the number of samples; for multi-label classification it is the number of samples having true label i and predicted label j. The result does not depend on the batch size.",
  ["inputs", "configurations"], "all T, Y, numbers of classes and samples, batch sizes",
  "Tests check two 4-row examples and that the matrix is nonzero on data sets.",
  [E], [("ELM.confusion", "hpelm/elm.py:345")], (), ["confusion() result"])

p("C13", "Training options select the mode they name, in any letter case",
  "The error measure in force after training is that of the classification option given ('c', 'wc', 'ml'/'mc', 'r' or none), options work in upper and lower case, and combining two selection methods or two classification types is rejected. For weighted classification, given class weights are used as given, otherwise the weight of a class is the number of training samples divided by its number of samples, and each sample carries the weight of its own class.",
  ["inputs", "configurations", "histories"], "all option combinations and spellings, previous trainings, weights, ELM and HPELM constructors and train calls",
  "Option handling is a product of modes, methods, case and history; tests try a few single options.",
  [E, H], [("_train_parse_args", "hpelm/elm.py:108"), ("automatic class weights", "hpelm/elm.py:240, hpelm/hp_elm.py:138"), ("ELM.__init__ classification argument", "hpelm/elm.py:85")], [("classification, wc", "current mode and class weights", "ELM")], ["error()", "output weights"])

p("C14", "Malformed data and neurons are rejected before the model changes",
  "Training, prediction, projection and error evaluation raise an error for non-numeric arrays, data that is not one- or two-dimensional, a column count different from the model's inputs or outputs, or different numbers of samples in X and T; adding neurons raises an error for a non-integer count, an unknown type, or W or B of wrong type or shape. After such a rejection the model is as it was before; accepted one-dimensional data is treated as a single column and values are never altered.",
  ["inputs"], "all shapes, dtypes and models",
  "Tests try a few wrong shapes and never look at the model afterwards.",
  [E, H], [("_checkdata", "hpelm/elm.py:557"), ("ELM.add_neurons assertions", "hpelm/elm.py:269")], (), ["raised exception", "model state"])

p("C15", "User data and model parameters are never modified behind the user's back",
  "Training, prediction, projection, error and confusion computation, ranking and model selection leave the caller's arrays (X, T, Xv, Tv, Y, class weights, neuron W and B) unchanged, and the model neither keeps a reference through which a later change of the caller's arrays alters it nor modifies in place a correlation matrix it was given. Out-of-core operations do not modify their input files.",
  ["inputs", "configurations"], "all methods and argument arrays, both CPU solvers, float32 and float64, weighted and unweighted",
  "No test looks at its inputs afterwards; in-place scaling only shows in particular dtype/solver/weight combinations.",
  [E, H, S, SP, V, CV, LOO], [("copies made by astype/np.array before in-place scaling", "hpelm/nnets/slfn.py:148-153, hpelm/nnets/slfn_python.py:38-43"), ("get_corr/set_corr/set_B copies", "hpelm/nnets/slfn.py:206-245")], (), ["argument arrays after the call"])

p("C16", "Statistics stored on disk equal the sum over all added data",
  "After any sequence of out-of-core data additions directed to a pair of correlation files, the files hold norm*I plus the sum of h'wh, and the sum of h'wt, over all samples added by all calls, each once and the regulariser once; the files are created if missing and only ever added to. Solving from the files gives the model that training on all those samples at once gives, and a call whose model does not match the files' sizes is rejected without changing them.",
  ["histories", "inputs", "configurations"], "all sequences of add_data/add_data_async calls with any ranges, models with the same neurons, both CPU solvers, existing or missing files",
  "Tests add twice and only check that nothing fails; the accumulated sum is never compared with anything.",
  [H, HT], [("_prepare_fHH / _write_fHH", "hpelm/modules/hdf5_tools.py:19-100"), ("norm removal before writing", "hpelm/hp_elm.py:170"), ("HPELM.solve_corr / _checkcorr", "hpelm/hp_elm.py:176,600")], [("fHH, fHT", "on-disk correlation matrices", "HDF5 files")], ["file contents", "solve_corr() weights"])

p("C17", "Parallel additions to the same files cannot lose or corrupt each other",
  "Processes that add data to the same pair of correlation files may interleave in any way: every access of the data-adding operation to a correlation file (existence check, creation, shape check, read-modify-write) happens while holding that file's own inter-process lock, the whole read-modify-write being inside one critical section. Locks are released on every path, also when a check fails, and the file is closed before its lock is released.",
  ["schedules", "inputs"], "all interleavings of any number of processes calling add_data/add_data_async with the same files",
  "Tests run one process; a lost update needs a particular interleaving of check, creation and write.",
  [HT, H], [("fasteners.InterProcessLock around file access", "hpelm/modules/hdf5_tools.py:82-100"), ("file preparation", "hpelm/modules/hdf5_tools.py:19-78")], [("lock file", "<file>.lock", "hdf5_tools")], ["order of lock and file operations"])

p("C18", "Data converted to HDF5 is the given data",
  "Converting an array, a .npy file, a text or csv file (optionally with skipped header rows, another delimiter, or gz/bz2 compressed) or a shape to HDF5 produces a file with exactly one two-dimensional array of the requested type holding the same rows and columns in the same order (zeros for a shape, a single column for one-dimensional data), at any compression level. The file is complete and closed on return and marked as not normalised.",
  ["inputs", "configurations"], "all sources, shapes, dtypes, skipped rows, delimiters, compression levels",
  "The suite only converts small float arrays; the text branch is never run.",
  [HT], [("make_hdf5", "hpelm/modules/hdf5_tools.py:165")], (), ["HDF5 file contents and attributes"])

p("C19", "HDF5 normalisation standardises each column once, for any batch size",
  "Normalising a file without parameters computes every column's mean and standard deviation over all rows, replaces the data by (x-mean)/std (std 0 counted as 1), records and returns both; doing it again leaves the data alone and returns the recorded values. With given mean and std exactly those are applied, and the caller's vectors are not modified; the result does not depend on the batch size.",
  ["inputs", "histories"], "all data, batch sizes (also not dividing N), repeated calls, given parameters as arrays or lists",
  "No test calls it.",
  [HT], [("normalize_hdf5", "hpelm/modules/hdf5_tools.py:103")], [("attrs.mean, attrs.std", "recorded parameters", "HDF5 node attributes")], ["file contents", "returned vectors"])

p("C20", "Asynchronous training and prediction equal the synchronous ones and finish",
  "Training, feeding data and predicting with asynchronous I/O give the same model and the same output file contents as the synchronous operations on the same files, range, batch size and options. The exchange with the reader and writer processes never deadlocks: every block is requested once, in order, consumed once, written to its own place, and both processes always receive their end marker and are waited for.",
  ["schedules", "inputs", "configurations"], "all sample counts, ranges, batch sizes, interleavings of the processes over FIFO queues of their declared capacity",
  "Tests run the asynchronous calls on 3 to 6 rows in one batch and do not compare results.",
  [H, HT], [("add_data_async / predict_async / train_async", "hpelm/hp_elm.py:440-590"), ("_ireader / _iwriter", "hpelm/modules/hdf5_tools.py:230-280")], [("queues", "requests, blocks, results", "mp.Queue")], ["model", "HDF5 output", "termination"])

p("C21", "Validation over stored statistics reports true errors and keeps the best size",
  "Validating with stored correlation matrices evaluates increasing numbers of neurons, none above the layer's size and the largest equal to it; for each it reports the error (and for classification the confusion matrix) on the whole validation set of the model that uses that many first neurons and is solved from the stored matrices. Afterwards the model is the one with the smallest reported error: its first neurons and its weights.",
  ["inputs", "configurations"], "all layer sizes, validation sets, step counts, batch sizes, classification modes",
  "Tests run it on one random set and compare the first with the last error.",
  [H], [("HPELM.validation_corr", "hpelm/hp_elm.py:372")], (), ["returned sizes, errors, confusions", "model after the call"])

p("C22", "Training starts afresh: the result does not depend on earlier training",
  "A training call gives the same model as the same call on a new model with the same neurons and parameters: nothing accumulated, solved, ranked, weighted or classified by earlier training or data feeding leaks in. Feeding data, by contrast, accumulates until it is reset, and resetting keeps the current solution usable.",
  ["histories", "inputs", "configurations"], "all histories of train/add_data calls before the call, all options, ELM and HPELM, sync and async",
  "Tests train fresh models; leftovers of an earlier training only show in sequences.",
  [E, H, S], [("_train_parse_args reset", "hpelm/elm.py:113"), ("SLFN.reset", "hpelm/nnets/slfn.py:94")], [("HH, HT, ranking, kmax, classification, wc", "training state", "ELM / SLFN")], ["output weights", "mode"])

p("C23", "Correlation matrices can be taken out and put back without change",
  "The correlation matrices a model hands out are the full symmetric regularised H'WH and H'WT of the data fed so far; setting matrices and reading them back returns the same matrices, and solving or continuing to feed data after setting them behaves as if the model had accumulated them itself. Both CPU solvers agree, solving uses the given symmetric system also when it is singular, and wrongly sized matrices are rejected without changing the model.",
  ["inputs", "histories", "configurations"], "all symmetric HH, all HT, both CPU solvers, any continuation",
  "Only a shape assertion path is exercised; the round trip and the continuation are never tested.",
  [S, SP], [("get_corr / set_corr", "hpelm/nnets/slfn.py:226-247, hpelm/nnets/slfn_python.py:72"), ("solve_corr", "hpelm/nnets/slfn.py:169, hpelm/nnets/slfn_python.py:53")], [("HH", "only the upper triangle is maintained by the fast solver", "SLFNPython.HH")], ["get_corr()", "solve_corr()"])

p("C24", "The GPU solver gives the same results as the CPU solvers",
  "For the same neurons, data and regularisation the GPU-accelerated solver produces the same hidden-layer output, correlation matrices, weights and predictions as the CPU solvers, within its precision.",
  ["inputs", "configurations"], "all models and data", "No test can run it without a GPU.",
  ["hpelm/nnets/slfn_skcuda.py"], [("SLFNSkCUDA", "hpelm/nnets/slfn_skcuda.py:23")])

p("C25", "Numerical accuracy of training degrades gracefully",
  "In the chosen floating-point precision, the relative residual of the trained normal equations stays within a small multiple of machine precision times the condition number of the system.",
  ["inputs", "configurations"], "all data and precisions", "Rounding behaviour over all inputs is not testable point by point.",
  [S, SP], [("solve_corr", "hpelm/nnets/slfn_python.py:53")])

p("C26", "Optimal pruning ranks neurons by what they explain of the targets",
  "With fewer than ten outputs, optimal pruning ranks neurons in the order of multiresponse sparse regression. The first neuron is the one whose correlations (inner products) with the target columns have the largest sum of absolute values; every later neuron is, among those not ranked yet, the one whose correlations with the columns of the residual have the largest such sum. The residual is the targets minus a fit that starts at zero and moves, at every step, straight towards the least-squares fit of the targets on all the neurons ranked so far: exactly as far as makes another neuron correlate with the residual as much as the ranked ones do.",
  ["inputs", "configurations"], "all data, sizes, numbers of outputs below ten, numbers of neurons requested",
  "Tests only look at the number of neurons left after pruning; a stale column in a work array or a wrong residual still yields a plausible ranking.",
  ["hpelm/modules/mrsr.py", E], [("mrsr", "hpelm/modules/mrsr.py:6"), ("_ranking", "hpelm/elm.py:530")], [("XX, Xi1, Xi2, Y", "products and columns of the neurons ranked and left, current fit", "mrsr")], ["ranking vector"])

with open(__file__.rsplit("/tools/", 1)[0] + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
