"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

SP, FI, OP, PY, VE, PL = ("spherepy/spherepy.py", "spherepy/file.py", "spherepy/ops.py", "spherepy/pysphi.py",
                      "spherepy/verify.py", "spherepy/plot_sphere.py")
C, KF = "src/csphi.c", "src/kiss_fft.c"

prop("C01", "Scalar transforms stay exact under concurrency, faults and retries",
 "Every inverse scalar transform that returns gives, at each grid point, the sum of the orthonormal Condon-Shortley spherical harmonics weighted by the coefficients it was called with, and every forward transform that returns recovers the coefficients of a band-limited pattern, to floating-point accuracy at every permitted size and with default or explicit size arguments. This holds whatever other threads are computing at the same time and whatever earlier calls failed, were interrupted or ran on the other backend. Sizes outside the permitted range, and fractional ones, are refused with an error, never answered.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "all interleavings of caller threads at statement granularity, all placements of an interrupt or a failed allocation in earlier or concurrent calls, all permitted (nmax, mmax, nrows, ncols) and coefficient values",
 "The tests run a few fixed sizes (15/50, 100/202) in one thread with no failure, and compare a round trip with itself, so an error shared by both directions, a size-dependent error, or one needing interference or a preceding failed call is out of reach.",
 [SP, OP, PY, C, KF],
 [("size checks and FFT pipeline", SP + ":spht/ispht"), ("Fourier-domain operators", OP), ("native and Python kernels", C + ", " + PY)],
 [("work arrays", "allocated per call; nothing is shared between calls", SP + ", " + C)],
 ["return value or exception of spht, ispht, spht_slow, ispht_slow"])
prop("C02", "Vector transforms stay exact under concurrency, faults and retries",
 "Every inverse vector transform that returns gives, at each grid point and in both the theta and the phi component, the vector-spherical-harmonic sum of the two coefficient sets it was called with, and every forward vector transform that returns recovers both coefficient sets, to floating-point accuracy at every permitted size, poles included. This holds whatever other threads are computing at the same time and whatever earlier calls failed, were interrupted or ran on the other backend. Sizes outside the permitted range, and fractional ones, are refused with an error, never answered.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "all interleavings of caller threads, all fault placements in earlier or concurrent calls, all permitted sizes and coefficient values of both sets",
 "The tests only round-trip one fixed size per test in one thread, and the norm they compare with looked at one of the two coefficient sets only.",
 [SP, OP, PY, C],
 [("vector pipeline", SP + ":vspht/vispht"), ("L and sin-L operators", OP + ":L_fc, sinLdot_fc, divsin_fc")],
 [("coefficient windows", "1/sqrt(n(n+1)) applied to private copies", SP + ":vispht")],
 ["return value or exception of vspht, vispht"])
prop("C03", "A call's result depends on its arguments alone",
 "Calling any deterministic public routine with equal arguments gives a bit-identical result, whatever was called before it, whatever other threads are doing, whichever earlier calls were interrupted or ran out of memory, and whatever the uninitialised memory it is handed happens to contain. No deterministic routine consumes or reseeds the random generator.",
 ["schedules", "histories", "fault_sequences"],
 "all histories of earlier calls (including failed ones), all interleavings, all contents of fresh memory",
 "Each test makes one call on a fresh object; none compares a call made in a busy, previously failed or garbage-filled process with the same call made in a pristine one.",
 [SP, OP, PY, C, KF, "spherepy/sbessel.py"],
 [("no state kept between calls", "whole package"), ("zero-initialised work arrays", SP + ", " + OP + ", " + C)],
 [("module-level state", "only the backend switch and message table", SP)],
 ["bytes of returned arrays", "state of the numpy global generator"])
prop("C04", "Computing never alters operands, and results share nothing",
 "Transforms, arithmetic, queries, saving, printing and plotting leave every object passed to them exactly as it was, also when the call fails or is interrupted part-way. The object that a transform, an arithmetic operation, a truncation, a magnitude, a load or copy returns shares no storage with its operands or with any other result, so a later in-place edit of one is never visible through another (accessors that hand out an object's own data, such as columns, components and the raw arrays, and constructors that adopt an array are not meant here).",
 ["histories", "schedules", "fault_sequences"],
 "all histories of calls and in-place edits over a pool of objects shared by threads, with an interrupt or failed allocation at any statement",
 "The tests discard operands after use; aliasing or an operand left half-modified shows only when the object is used again after the call, or after a failure inside it.",
 [SP, OP, C, FI, PL],
 [("private copies before in-place operators", SP + ":vispht, vspht; " + OP + ":L_fc"), ("copy()", SP)],
 [("coefficient and pattern buffers", "owned by exactly one object", SP)],
 ["object contents before and after each call, and after edits of other objects"])
prop("C05", "Native and pure-Python backends are interchangeable at any moment",
 "Whichever backend is selected, and however the selection is switched between or during calls, every transform accepts and refuses the same arguments (sizes held in numpy integers are accepted) and returns the same values to floating-point accuracy. The explicitly pure-Python transforms agree with the default ones, and the packaged setting that turns the native backend off really selects the Python one.",
 ["configurations", "schedules", "inputs"],
 "both backends, all switch points relative to concurrent calls, all permitted sizes, and refused argument combinations",
 "The tests compare the backends at two sizes, with no switch while calls are in flight, and never with refused arguments or with the setting turned off.",
 [SP, PY, C, KF, "spherepy/pkg_info.json"],
 [("backend switch", SP + ":use_cext"), ("parallel implementations", PY + " / " + C)],
 [("backend switch", "read at each call", SP)],
 ["values and exceptions with the switch on, off and flipping"])
prop("C06", "An acknowledged save loads back bit for bit",
 "Once a save of coefficients or of a pattern with the double-sphere symmetry has returned, loading that name gives exactly the saved values, whatever finite, infinite, signed-zero or subnormal numbers they hold, until another save to that name begins; a complete vector coefficient file in the loader's format loads exactly too. This holds when the storage accepts and returns data in pieces, when system calls are interrupted and retried, when other names are saved and loaded concurrently, when the name held other data before, and when the process is killed right after the save returned.",
 ["fault_sequences", "crash_points", "histories", "inputs"],
 "all sequences of saves and loads over a set of names, all splits of reads and writes, all interrupted calls, process death at any point after a return, all representable values",
 "No test saves or loads a file.",
 [FI],
 [("17-significant-digit text records", FI + ":save_coef/save_patt"), ("record parsing", FI + ":load_coef/load_patt")],
 [("data file", "header line, then one record per value", FI)],
 ["loaded object against the object acknowledged last"])
prop("C07", "A failed save or load is reported and cleans up",
 "If opening, writing, flushing or closing fails at any point of a save, the save raises instead of returning; if opening or reading fails during a load, the load raises or returns the stored values, never others. In every case no file handle stays open, the object being saved is unchanged, and the same operation succeeds once the storage works again.",
 ["fault_sequences", "inputs"],
 "all placements of an error (full disk after any byte count, I/O error at any call, failure to open, close error, interrupt at any statement) in any save or load of any size",
 "No test touches a file, let alone a failing one.",
 [FI],
 [("context-managed files", FI)],
 [("open handle", "released on every exit path", FI)],
 ["outcome of each save and load; number of open handles"])
prop("C08", "An incomplete or torn file is never loaded as data",
 "Loading a file whose contents are not a complete save - because the writer was killed at any byte, is still writing, or the storage lost its tail, lost whole lines or zeroed part of it - raises an error; it never returns an object in which missing or damaged values were silently filled in. If loading succeeds, the result equals some object completely saved under that name.",
 ["crash_points", "fault_sequences", "schedules"],
 "all crash points of a writer at byte granularity, all subsets of lost or zeroed blocks, all moments of a concurrent load, for scalar, pattern, vector-pattern and vector-coefficient files",
 "No test loads a file; a damaged one exists only after a crash.",
 [FI],
 [("record counting on load", FI)],
 [("data file", "may be any torn image of a save", FI)],
 ["outcome of loading each torn image"])
prop("C09", "Running out of memory is a clean, recoverable error",
 "If any memory allocation fails during a transform, an arithmetic operation, a copy or a load, the call raises a memory error; the process survives and no operand is changed. Nothing allocated by the failed call stays allocated, and the same call made when memory is available again returns the correct result.",
 ["fault_sequences", "inputs"],
 "every allocation made during the call (array data, native work space, FFT work space) failing in turn, for all operations and sizes",
 "No test can make an allocation fail.",
 [C, KF, "src/csphi_wrap.c", SP, OP],
 [("native work space", C + ":fc_to_sc, sc_to_fc"), ("exception propagation", SP)],
 [("native work space", "allocated and released within one call", C)],
 ["exception type; survival of the process; live native allocations after the call; result of the retry"])
prop("C10", "Native transforms stay inside their memory and release all of it",
 "For every size the library accepts, the native transforms read and write only the memory they were given or allocated, use no memory they have not initialised, and release every work area exactly once, so that repeating a call forever keeps memory use constant. Size arguments the library cannot serve, given to a transform or to the native module itself, raise an error instead of crashing the process.",
 ["inputs", "histories", "configurations"],
 "all accepted and refused size combinations, all histories of repeated calls, all placements of buffers relative to inaccessible memory and all garbage contents",
 "The tests use a few comfortable sizes; an access one element out, a leak or a use of uninitialised memory does not change their outcome.",
 [C, KF, SP],
 [("buffer sizes", C), ("size checks", SP)],
 [("native work space", "malloc/free per call", C)],
 ["guard zones and inaccessible pages around every buffer; allocation balance per call"])
prop("C11", "Coefficient containers behave as a map from (n, m), in every history",
 "After any history of creations, reads, single, row and column assignments, windows, truncations and copies, a coefficient object holds exactly the values that a plain table indexed by (n, m) would hold: each valid pair addresses its own value, every way of reading (element, row, column, truncation, spectrum, text) agrees, and vector objects keep an empty monopole. For objects holding complex values, an access or assignment outside the valid range, of the wrong length or with a value that is not a number is refused and leaves the object unchanged (also for kinds of index that are not offered), and a column, row or element assignment that is interrupted leaves every other value unchanged. When several threads assign different places of one object, every assignment takes effect.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all histories of operations on objects of all (nmax, mmax) and all interleavings of assignments to different places of one object, including refused ones and ones interrupted at any statement",
 "The tests exercise isolated calls on one size (11, 10), mostly only checking that an exception is or is not raised.",
 [SP, PY],
 [("index arithmetic", PY + ":mindx"), ("bounds checks", SP + ":ScalarCoefs, VectorCoefs")],
 [("coefficient vector", "column-major by m = 0, -1, 1, -2, 2, ...", SP)],
 ["every read path of the object after every step"])
prop("C12", "Arithmetic and norms agree with element-wise mathematics",
 "In every history, possibly with several threads combining the same operands, the sum, difference, product and quotient of two coefficient objects or two patterns, or of one and a number on either side, equals the element-wise result, and norms, magnitudes, power and spectra equal their definitions over all stored values of both components. Combining objects of different shape is refused even when they hold equally many values, and dividing by the number zero, or combining with something that is neither, is refused.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all expression histories over scalar and vector coefficients and patterns shared between threads, all shapes, interrupts and failed allocations in between",
 "The tests compare an expression with itself; they would pass with a wrong operator, a swapped operand or an ignored component.",
 [SP],
 [("operator decorators", SP + ":_scalar_coef_op_left and the like"), ("norms", SP + ":L2_coef ... LInf_patt, mag, mag2, abs")],
 [("operand buffers", "read only", SP)],
 ["value of each expression and query against a reference model"])
prop("C13", "Patterns keep double-sphere symmetry and their data in every history",
 "Every pattern made from single-sphere data, by a factory, by an inverse transform, by loading, or by adding, subtracting or scaling such patterns (and multiplying scalar ones) has the symmetry the forward transform needs (exactly when built from data, up to rounding when computed), reports itself as symmetric, and shows the given data unchanged away from the poles (a vector pattern that is constant and not zero cannot have it, so the vector ones factory is not meant). A pattern whose data break the symmetry in any component is reported as not symmetric.",
 ["histories", "fault_sequences", "inputs"],
 "all histories of pattern construction and linear combination with interrupted or failed steps in between, all sizes and values including very small ones",
 "The tests check symmetry of one random size, for the vector case in one component only, and never the data shown.",
 [SP, FI],
 [("continuation over the poles", SP + ":continue_sphere, double_sphere"), ("symmetry report", SP + ":single_val, is_symmetric")],
 [("doubled array", "rows continued over the south pole", SP)],
 ["cdata, theta, phi, doublesphere, is_symmetric, single_val after every step"])
prop("C14", "Random factories are reproducible and well-formed for every draw",
 "Random coefficient and pattern factories take all their randomness from numpy's global generator: the same seed and the same sequence of calls give identical objects, in any history and after failed or interrupted calls have been followed by reseeding. For every possible draw the object is well formed - requested shape, empty vector monopole, symmetric pattern, real and imaginary parts and the two vector components drawn separately, normally distributed with the mean and spread requested.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "all generator states and draw values (including zeros and extremes), all histories and interleavings of factory calls",
 "The tests never seed the generator and look only at the exception for bad sizes.",
 [SP],
 [("random factories", SP + ":random_coefs, random_patt_uniform")],
 [("numpy global generator", "the only source of randomness", SP)],
 ["objects produced under a seeded and under a scripted generator; generator state afterwards"])
prop("C15", "Everything but plotting works without a plotting library",
 "If importing the plotting library fails with any exception and at any point of its own import, the package still imports and all of its non-plotting routines work; only calling a plotting routine fails, with an import error that names the missing library. If the plotting library is present, the plotting routines draw with it.",
 ["fault_sequences", "configurations"],
 "every point of the plotting library's import at which a failure can occur, every kind of import failure, followed by any use of the package",
 "The tests run with the library installed and never import the package under a failing dependency.",
 [PL, "spherepy/__init__.py"],
 [("optional import and guard", PL + ":matplotlibensure, MPLINSTALLED")],
 [("availability flag", "decided at import", PL)],
 ["import of the package; outcome of numeric and plotting calls"])
prop("C16", "File verification reports the true discrepancy",
 "For every pair of coefficient and pattern files, the verification routines return the actual absolute and relative L2 and maximum differences between the stored result and a freshly computed transform, counting both components of vector data; they report agreement only if the data agree (vector coefficient sets have no monopole, and a value stored there is not counted). If one of the files was altered, replaced by a stale version or torn, they report the resulting difference or raise, and a failing or interrupted verification leaves the files untouched.",
 ["fault_sequences", "histories", "inputs"],
 "all scalar and vector file pairs, any stored value altered, stale or torn files, read errors and interrupts at any point",
 "No test runs a verification routine.",
 [VE, FI, SP],
 [("verify_spht, verify_ispht, verify_vspht, verify_vispht", VE), ("norms", SP)],
 [("data files", "read only", VE)],
 ["returned four-tuples against differences computed by a reference model; file bytes afterwards"])
prop("C17", "Spherical Bessel and Hankel functions are accurate",
 "For every positive argument and every number of orders requested, from one upwards, the spherical Bessel functions of both kinds, the Hankel functions and the tables of them agree with their mathematical definition wherever the result is representable, whatever other threads compute and whatever earlier calls were interrupted or failed. Agreement is to floating-point accuracy relative to the modulus of the pair of functions (to the value itself beyond the turning point), and to seven digits at the isolated arguments where a recurrence cancels. The self-check routines report the deviations that are really there.",
 ["inputs", "schedules", "histories", "fault_sequences"], "all positive real arguments, including multiples of pi/2, all numbers of orders, all interleavings and histories of calls with interrupts and failed allocations",
 "The tests check two identities for ten random arguments.",
 ["spherepy/sbessel.py"], [("recurrences", "spherepy/sbessel.py")], (), ["returned vectors"])
prop("C18", "Single-harmonic tables agree with the harmonics the transforms use",
 "The routine that tabulates one spherical harmonic over a grid gives, for every degree, order and grid size, at each grid point the orthonormal Condon-Shortley spherical harmonic, the same values as the inverse transform of the single corresponding coefficient. This holds whatever other threads compute and whatever earlier calls were interrupted or failed.",
 ["inputs", "schedules", "histories", "fault_sequences"], "all degrees, orders and grid sizes, all interleavings and histories of calls with interrupts and failed allocations",
 "No test calls it.",
 [SP, PY], [("sph_harmonic_tp", SP), ("ynunm", PY)], (), ["returned table"])
prop("C19", "Plots show the right geometry",
 "Each plotting routine hands the plotting library every point of the plotted pattern or coefficient set at the position and height that its value and its grid indices prescribe: surfaces close around the sphere with the magnitude as radius, meshes show each coefficient in the cell of its (n, m), line plots each column over its degrees. This holds also after a drawing that was interrupted or that the library aborted, and while other threads draw or compute.",
 ["inputs", "schedules", "histories", "fault_sequences"], "all patterns and coefficient sets, all interleavings of callers, failures of any drawing call and interrupts at any line",
 "Plotting has no tests.",
 [PL], [("surface construction", PL)], (), ["arrays handed to the plotting library"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
