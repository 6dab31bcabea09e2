"""What each check claims: level, note, trusted base."""
_ALL = ["C%02d" % i for i in list(range(1, 24)) + [26]]
LEVELS = {p: "proof" for p in _ALL}
_SIZES = "sizes, values, batch sizes and option values symbolic and unbounded; "
NOTES = {
    "C01": _SIZES + "`_project` by its contract (C05), the linear solver by scipy's contract; floats as reals",
    "C02": _SIZES + "one call from an arbitrary accumulated state, so any sequence of calls; floats as reals",
    "C03": _SIZES + "every combination of istart/icount given or not; `_project` by its contract (C05); files by PyTables' contract",
    "C04": _SIZES + "`_project` by its contract (C05); files by PyTables' contract",
    "C05": "symbolic number of neuron groups, neurons, samples and inputs; exp, tanh and cdist by contract; floats as reals",
    "C06": _SIZES + "random values arbitrary (random RBF widths assumed different from 0)",
    "C07": "pruning, V, LOO and CV for all sizes and any number of folds from 3 (one sample per fold at least); search by C08",
    "C08": "all sizes, any errors, any number of folds from 3 with a sample each (loop invariants over folds, loop invariant and variant "
           "of the search); error measure, ranking and solver by contract",
    "C09": "all sizes; loop invariants of mrsr and mrsr2; values are reals without NaN; brentq and shuffle by contract",
    "C10": "symbolic list of neuron groups, arbitrary state of the loading object; pickle by contract",
    "C11": _SIZES + "floats as reals",
    "C12": _SIZES + "argmax is the first maximum",
    "C13": "every option word in both cases with every other relevant one; data symbolic",
    "C14": "every kind of malformed argument at every entry point, sizes symbolic; the state of the model compared field by field",
    "C15": "ownership and frame conditions over buffers at every entry point; sizes symbolic",
    "C16": _SIZES + "arbitrary content of the files before the call, so any sequence of calls; PyTables by contract",
    "C17": "lock discipline (each access under the file's own lock, closed before release, fixed order) on all paths including "
           "exceptional ones; serialisation of the calls follows from the contract of the inter-process lock",
    "C18": "rows and columns symbolic; numpy, csv, gzip, bz2 and PyTables by contract",
    "C19": _SIZES + "files by PyTables' contract; floats as reals",
    "C20": "symbolic number of blocks; the reader and writer loops are proved to follow the contract the main process is proved against; "
           "queues, events and processes by contract",
    "C21": _SIZES + "solve_corr, error, confusion and pruning by contract; at least two steps or a vector of sizes",
    "C22": "from the state after arbitrary training or feeding of every classification type; sizes symbolic",
    "C26": "1 to 9 outputs, everything else symbolic: order, residual, direction and end of every step and the work arrays by the loop "
           "invariant; inv and pinv by contract; the length of the step is decided by the bounded run-time contract only",
    "C23": _SIZES + "the linear solver by scipy's contract; floats as reals",
}
for _p in _ALL:
    NOTES[_p] = "deductive: every obligation generated from the source, " + NOTES[_p] + \
        ". A bounded run-time contract on the real code runs beside it and is counted apart."
TRUSTED = [
    "dv: the symbolic interpreter of the Python subset (dv/engine.py), loop summaries and their verification (dv/loops.py, dv/whiles.py, "
    "dv/hoare.py), terms and normal forms (dv/term.py), translation and axiom instances (dv/smt.py); compared with Python and numpy on the "
    "programs of tools/snippets.py by tools/conform.py",
    "z3 (python binding)",
    "contracts of numpy as written in dv/nplib.py (shapes, dtypes, aliasing of views, broadcasting, indexing, sums, sorting, argmax)",
    "CPython semantics of the statements used",
]
_FILES = "contract of PyTables files (dv/scilib.py): a file is a list of named arrays with attributes stored by value; what is written is read back"
_LIN = "contract of scipy.linalg/numpy.linalg: solve(A, b) x satisfies A x = b, or LinAlgError; lstsq of a singular system is any least-squares solution"
_HID = "projection of a layer that holds neurons sel(0..n-1) of another one is hid(row, sel(j)) (C05 gives the columns in order)"
TRUSTED_OF = {
    "C01": [_LIN, _FILES], "C02": [_FILES], "C03": [_LIN, _FILES], "C04": [_FILES],
    "C05": ["contracts of scipy.spatial.distance.cdist, np.exp, np.tanh (functions of their arguments only)"],
    "C06": ["contract of np.random: arbitrary values of the requested shape"],
    "C07": [_LIN, _HID, "contract of ELM._ranking (proved by C09): distinct indices 1 <= ranked <= L"],
    "C08": [_LIN, "contract of ELM._ranking (proved by C09): distinct indices, 1 <= ranked <= L, the same number in every fold",
            "contract of ELM._error (proved by C11): a non-negative function of the predictions"],
    "C09": ["contract of scipy.optimize.brentq: a number or ValueError", "contract of np.random.shuffle: a permutation"],
    "C26": ["contract of np.linalg.inv and pinv: a function of the matrix"],
    "C10": ["contract of pickle: values are loaded back as dumped; files are closed by reference counting"],
    "C16": [_FILES, _LIN], "C17": [_FILES, "contract of fasteners.InterProcessLock: at most one holder per path"],
    "C18": [_FILES, "contracts of numpy.load, numpy.loadtxt, csv.reader, gzip and bz2"],
    "C19": [_FILES], "C20": [_FILES, _LIN, "contracts of multiprocessing: Process runs its target, Queue is a lossless FIFO"],
    "C21": [_LIN, _HID, _FILES, "np.logspace over the reals and increasing, np.unique sorts and removes duplicates"],
    "C22": [_LIN], "C23": [_LIN],
}
ASSUMED = [
    "machine arithmetic is treated as mathematical: floats as reals, integers unbounded; conversion to float32 is the identity on values "
    "(the dtype itself is tracked)",
    "arrays hold no NaN or infinity; no allocation fails; nothing outside the call changes the arrays during it",
    "the layer's groups have distinct types, as add_neurons leaves them (C06)",
    "output of print and values of time() do not matter; destructors run at an unknown time",
]
