"""Per-property notes for DESIGN.md (see mkdesign.py)."""
NOTES = {
"P01": "State: handles and memory blocks with reference count, owner, type, location, shape, strides, read-only flag, contents, plus the pending status. Every public sdp_mem call is a transition. TLC explores all short histories (invariants: types, views inside their memory, ownership: a block is live iff owned by a live handle or external) and draws random scripts of 36 calls (weighted to lifetime operations) which the driver replays; every accessor of every live handle is read after every call and compared; use after free and double free show in AddressSanitizer. Reaches histories, which no single test does.",
"P02": "Same specification, scripts weighted to wraps, aliases and slices (positive, negative-order and gapped strides, offsets, zero and excessive sizes); a write through every view is compared cell by cell in the whole base memory.",
"P03": "Same specification, scripts weighted to copy, convert, clear, portions, set, scale; the complete contents of every block, gaps included, is compared after every call. The random fill is judged by its range, its type and its reproducibility from the seed.",
"P04": "Same specification, scripts weighted to the argument checks with satisfied and violated requirements and with statuses that already hold an error; the status after every call is compared.",
"P05": "State: virtual clock, timer tree (parent, name, one timer per thread slot), current node per caller. Calls: tick, push, pop, pop-push, create-set (with and without explicit parent), single timer operations, report. The driver interposes gettimeofday/clock_gettime with the virtual clock and parses the printed report; TLC follows it line by line (ordering, depth, minimum, maximum, median, interquartile range, unaccounted time, percentages).",
"P06": "Samples sit at quarter-cell positions so that cell indices and weights are exact dyadic numbers; grid sums, uniform and Briggs outputs are compared exactly; coordinates beyond every edge, both precisions, all layouts.",
"P07": "Tile membership, count, prefix sum and bucket sort specified as multisets: each visibility occurs exactly once in each tile it touches, buckets contiguous, skipped ones counted. Includes indexed (VLA-style) and plain variants. Known finding: tables without room for the edge tiles.",
"P08": "Exact arithmetic in eighths; adjacent bounds partition the channels; start/end rows; inputs and outputs in place; frequencies up to 1e7 channel widths away. The closed form is model-checked against the declarative definition.",
"P09": "The residual/model recurrence in exact integers (loop gain 1/2, 1/4; integer PSFs), with every cycle-limit prefix re-run (Limit = 0..k), so each single iteration is observed. Conservation: dirty = residual + model * psf is an invariant of the model.",
"P10": "As P09 per scale, with the scale kernels' closed form and the bias; Sci comparisons. Conservation and stop conditions are model-checked.",
"P11": "Definition by direct sum; FFT closed form model-checked equal (spread, cyclic). Real code on integer images, all size combinations, odd and even, gaps.",
"P12": "Separable, round trip and centring laws model-checked with exact roots of unity; real code (pocketfft and the library's own FFT in a second build with USE_POCKETFFT=OFF) on integer data in all dimensions, batches, precisions.",
"P13": "Smallest smooth number by exhaustive definition; all sizes in a range plus random large ones, padding in 1/1000.",
"P14": "Each step is a linear map whose non-zero entries are written in TLA+ (positions modulo sizes, windows, roots of unity). TLC checks on the model that facet -> sub-grid composition places every image element at the right phase, that offsets are periodic, and that the forward and backward steps are adjoint. The driver runs every step in 1D and 2D, in place and not, with all layouts.",
"P15": "Sources and baselines at multiples of 1/Den turn; phases from Trig tables; polarisations, precisions, read-only, layouts. The coordinate rotation is checked as an orthogonal matrix with the right axis images.",
"P16": "Closed forms per helper: sub-grid cut out / add (wrap-around with any offset, injective and periodic in the model), shift, accumulate, scale, lmn tables, row sums, bounds, residual statistics, kernels.",
"P17": "Direct sums with Trig tables; selection by channel range; the model proves gridding and degridding adjoint.",
"P18": "WTower.tla states the direct sum over pixels of the sub-grid image and, separately, the method: planes, kernel corner, kernel rows, footprint. TLC shows that planes share out every coordinate, that footprints surround positions and that the kernel reproduces the transform to the accuracy of its support (4, 6, 8). The driver corrects sparse images (whole or facet by facet, image size equal to or twice the sub-grid), degrids or grids rows in ranges, and TLC compares every visibility, or pixels after correction, with the direct sum; positions on, just above and (recorded finding) just below planes and kernel steps; rows that straddle the edge of the sub-grid.",
"P19": "WStack.tla states the partition of (u, v, w) into towers and sub-grids and the chunks; WStackGen.tla is the pool of workers (pick under the lock, select, count, work on an own sub-grid, add to the shared grid in two steps within the critical section, next plane) explored exhaustively for every placement of the visibilities: every visibility once, nothing lost in the grid, the count agrees, no two workers adding at once, chunks disjoint, all ends under fairness. (With the lock or the critical section taken out of the model TLC finds the lost update or the doubled chunk, so the properties are not vacuous.) The driver calls the two functions for whole observations: few or thousands of rows (so that sub-grids are split into chunks), coordinates on and beside the edges of sub-grids and towers, image real or complex, 1 to 8 threads. The exported functions the workers call are interposed only to make threads coincide at those places; nothing is skipped or replaced, so any correct protection passes. Every visibility, and pixels of the image, are compared with the direct sum by TLC. Two threads seen inside subgrid_add at once are a violation only if a stress run then shows that concurrent additions get lost.",
"P20": "Footprint and kernel row selection in exact fixed point; conjugation; every edge; gap layouts.",
"P21": "The flagging rule with exact statistics on integer magnitudes; windows, steps, history; single and dual thresholds; monotonicity model-checked.",
"P22": "Station beam from Trig tables; dipole closed form at tabulated angles; spherical wave modes from exact Legendre recurrences (Beam.tla), power law model-checked.",
"P23": "The eigenfunction property with recorded windows (integral equation on a quadrature grid), completeness of tables for all sizes and types.",
"P24": "ArgTable.tla is a decision table: for each of 65 functions (and both precisions) every argument, every change from a valid call (type, shape, rank, layout, write protection, memory place, scalar values) and the code it is answered with. Args.tla is the calling convention on top: status kept along a chain, nothing written while it is set. TLC enumerates a sweep script per function (valid call, every single change, a chain of calls after an error) and draws chains of calls of all functions with one or two changes; driver/args.cpp performs them on the library with guarded arrays and reports code, status, and whether outputs or inputs changed. A wrong shape may be reported by any of the shape codes (several checks may notice it first); pairs of changes are made only when neither can make up for the other. What a function does not check at all (for example that row counts agree in the gridders) is in neither set and not judged: the caller's duty.",
"P25": "PyMem.tla has buffers, arrays as views (offset, shape, strides, mode) and descriptors over one memory, with the meaning of each indexing operation, of a write on either side, and of who keeps a buffer alive; TLC checks that views stay inside, that every element of a view has its own place and that only the element that is written changes. Scripts drawn from it are played with numpy and the real library: descriptors, contents on both sides after each write, weak references for lifetimes, and the vector-add function with its error codes.",
"P26": "Facet-by-facet equals whole; pixel factors from recorded kernels; rotation by Trig tables; unsupported types.",
"P27": "BindTable.tla lists for each of 91 Python functions, methods and properties its parameters and the C call it stands for. Binding.tla says what a step may do to the C side (descriptors, handles, sky coordinates) and what the caller sees; BindingGen.tla has the small steps of one call with failures anywhere (model-checked) and draws scripts. The driver generates a C library from the real headers that records every call and can fail at any of them, and runs the real Python package on top of it.",
"P29": "Height.tla is the search as a state machine over the recorded errors; HeightGen.tla runs it for every pattern of errors (it ends, tries nothing twice, and its answer is a boundary, the largest for growing errors) and proves the source positions distinct and inside. The driver measures the errors itself with the public gridder functions, classifies them against the target, and the specification says which heights are right. Termination is not promised for a target that the error never reaches.",
"P28": "Sky.tla is a record machine with slots, whose numbers are texts; TLC checks that only the object that is meant changes. Scripts of make/copy/astropy/set/ask/drop/refuse and of null objects are played in Python and through the C functions, answers compared digit by digit.",
"P30": "Pure.tla is a machine of references and running calls that refuses an outcome which is not the reference's; PureGen.tla puts it beside four kinds of library (pure; memo looking at the function only; shared scratch storage; plans with a leftover) and TLC checks that it refuses exactly the wrong outcomes. Its scripts (batches of one to three simultaneous calls out of 47 functions, both precisions, six variants of the arguments each, fresh or used plans, one or three OpenMP threads) are played in one process; references come from processes forked for one call each, with freshly allocated memory filled with another byte. An outcome is sketched by sizes, counts of non-finite values and projections (tolerance 5e-9 double, 3e-6 single, of the output's size). Run in an optimised build and under ThreadSanitizer, where driver/gomp.h replaces the OpenMP runtime by std::threads whose ordering the sanitizer sees; a race report is a violation. Not counted: the log filter's level is read from the environment by whichever thread is first, each writing the same value; the driver logs once before it starts threads. Cells at the border of the w-stack gridder's image, where the correction is ill-conditioned, are masked.",
"P31": "DataModel.tla gives the set of requirements an array does not meet and what is reported about it; DataModelGen.tla checks, for all small arrays, that an array is accepted exactly as what it says about itself and as nothing else, and generates scripts of checks and questions (arrays with up to two flaws, one status handed along) that the driver plays. Any code of an unmet requirement is accepted. The number of polarisations is only judged when it is asked for.",
"P32": "Log.tla is a machine of sent and pending messages per stream and thread, with its own calendar; LogGen.tla explores libraries that write lines in one piece or two, and read the clock once or twice, and TLC checks that exactly the mixed and mistimed lines are refused. The driver replaces the clock (time, gettimeofday, clock_gettime) by one that moves on at every reading, often close to the end of a second or year, sends messages from one to four threads to files of every buffering and through the macros, and parses what came out. An unknown filter name is not judged.",
}
CAUGHT = {
"contiguous-outer-stride": "P01 quick (contiguity after wrap)",
"timer-double-resume": "P05 quick (missed before the script generator was repaired)",
"clamp-short-baseline": "P08 quick (missed before frequencies far above the channel width were added)",
"hogbom-negative-image": "P09 quick",
"cut-out-far-offset": "P16 quick",
"flagger-leftover-score": "P21 quick",
"wkernel-far-side": "P26 quick",
"phase-shift-over-90deg": "P15 quick",
"padded-size-rounding": "P13 quick",
"facet-as-large-as-plan": "P14 quick",
"coupling-not-reset": "P10 quick",
"degrid-last-row": "P20 quick",
"beam-z-offset": "P22 quick",
"tile-first-column": "P07 quick",
"chunk-rows-rounded-down": "P19 quick",
"pswf-below-minus-one": "P23 quick",
"norm-of-oblong": "P12 quick",
"complex4-of-2x2": "P01 quick",
"reversed-view-strides": "P25 quick",
"shears-swapped": "P27 quick",
"sky-coord-type-truncated": "P28 quick",
"same-shape-other-dim": "P04 quick",
"weights-below-grid": "P06 quick",
"convolution-wraps": "P11 quick",
"degrid-overwrites": "P17 quick",
"rotate-other-baselines": "P24 quick",
"pswf-remembered": "P30 quick",
"flagger-shared-buffer": "P30 quick",
"two-polarisations": "P31 quick",
"log-critical-filter": "P32 quick",
}
