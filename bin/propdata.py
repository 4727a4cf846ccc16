"""The listed properties; `python3 bin/mkmanifest.py` writes properties.jsonl from this."""

S = "src/ska-sdp-func/"


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[f if f.startswith("src/") else S + f for f in files],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))


PROPERTIES = [
    P("P01", "Array handles: ownership, reference counting and metadata",
      "An array handle stays usable exactly until as many releases as references have been made, releasing it frees only memory it owns, and wrapped memory, aliases and slices never take or give up ownership of the data they look at. "
      "At every moment the handle reports the element type, location, number of dimensions, per-dimension sizes and strides, element count, contiguity, ownership and read-only state it was given.",
      ["histories", "inputs"],
      "Every sequence of create / wrap / alias / slice / copy / reference / release calls, over every element type, location and shape.",
      "Tests create a handle, use it once and free it; lifetimes are a property of whole histories of calls.",
      ["utility/sdp_mem.cpp", "utility/sdp_mem.h"],
      [("sdp_mem_create*, sdp_mem_ref_inc/dec, sdp_mem_free", "src/ska-sdp-func/utility/sdp_mem.cpp")],
      [("ref_count, is_owner, is_read_only, shape, stride", "the handle", "struct sdp_Mem")],
      ["public sdp_mem_* accessors", "AddressSanitizer"]),
    P("P02", "Views and slices address exactly the selected elements",
      "An alias or slice of an array addresses exactly the elements its offsets, sizes and strides select, so a write through it changes those elements and no others, and it never reaches outside the memory of the array it was taken from. "
      "A slice that would reach outside is refused with an error.",
      ["inputs", "histories"],
      "Every source layout (contiguous or strided), every offset and size combination, nested views.",
      "Tests take one or two in-range slices of contiguous arrays.",
      ["utility/sdp_mem.cpp"],
      [("sdp_mem_create_wrapper_for_slice, sdp_mem_create_alias, stride computation", "src/ska-sdp-func/utility/sdp_mem.cpp")],
      observe=["element reads and writes through the view"]),
    P("P03", "Bulk element operations touch exactly the elements of the array",
      "Copying, clearing, setting, scaling, random filling and precision conversion act on exactly the elements of the arrays involved, in element order, whatever the type and memory layout, and leave all other memory untouched. "
      "A copy equals its source element by element and is independent of it afterwards.",
      ["inputs", "histories"],
      "Every element type, shape, memory layout (strided and contiguous) and interleaving with other operations on overlapping views.",
      "Tests copy one small contiguous array.",
      ["utility/sdp_mem.cpp"],
      [("sdp_mem_create_copy, sdp_mem_copy_contents, sdp_mem_clear_contents, sdp_mem_set_value, sdp_mem_scale_real, sdp_mem_convert_precision", "src/ska-sdp-func/utility/sdp_mem.cpp")],
      observe=["memory image before and after"]),
    P("P04", "Argument checks report the right error and keep the first one",
      "Each array check succeeds exactly when the array satisfies the requirement, and otherwise sets the documented error code. "
      "Once a status holds an error no later check or operation changes it, and operations given a failed status do nothing.",
      ["inputs", "histories"],
      "Every check, every array type/shape/location/layout, every sequence of checks on one status.",
      "Tests exercise the success path and a handful of failures, never sequences of failures.",
      ["utility/sdp_mem.cpp", "utility/private_mem_utils.h", "utility/sdp_errors.h", "utility/sdp_data_model_checks.cpp"],
      [("sdp_mem_check_*", "src/ska-sdp-func/utility/sdp_mem.cpp"),
       ("sdp_data_model_check_*, get_*_metadata", "src/ska-sdp-func/utility/sdp_data_model_checks.cpp")],
      [("status", "first error of a call sequence", "sdp_Error* argument")]),
    P("P05", "Hierarchical timers account for exactly the elapsed time",
      "A timer's value is the sum of the intervals between its start (or resume) and pause (or reading), and nested timers are created, found and reported under the parent that was active when they were started. "
      "The report shows every timer once, with its call count, own time and children.",
      ["histories"],
      "Every sequence of create / push / pop / start / pause / resume / restart / report over every nesting.",
      "There is no test of the timers at all.",
      ["utility/sdp_timer.cpp", "utility/sdp_timer.h"],
      [("sdp_timer_*, sdp_timers_*", "src/ska-sdp-func/utility/sdp_timer.cpp")],
      [("timer tree, current node", "nested timers", "sdp_TimerNode")],
      ["sdp_timer_elapsed, the printed report, against a virtual clock"]),
    P("P06", "Uniform and Briggs weighting follow the accumulated uv-weight grid",
      "The weight grid gains, in each uv cell and polarisation, exactly the sum of the input weights of the samples falling in that cell, and each such sample's output weight is one over its cell's weight (uniform), or its own weight divided by one plus the cell's weight times the robustness factor (Briggs). "
      "Samples outside the grid contribute nothing and leave their output untouched, and no memory outside the arrays is accessed.",
      ["inputs"],
      "Every set of baseline coordinates (including negative and far outside the grid), channel frequencies, weights, grid sizes, robustness values and both precisions.",
      "The test uses random coordinates inside the grid and recomputes the same expression.",
      ["visibility/sdp_weighting.cpp"],
      [("grid cell index and bounds test in the weight accumulation and read-back", "src/ska-sdp-func/visibility/sdp_weighting.cpp")],
      [("weights grid", "accumulated weight per uv cell", "weights_grid_uv argument")]),
    P("P07", "Tile sort: every in-range visibility lands in each tile it touches, once",
      "For each visibility inside the grid, the tile count, prefix sum and bucket sort place exactly one copy of it (value, weight, coordinates) in the bucket of every tile its support touches, and in no other. "
      "Bucket extents are given by the prefix sum of the counts, and visibilities outside the grid are only counted as skipped.",
      ["inputs"],
      "Every set of coordinates, channels, grid sizes, tile sizes and supports.",
      "The tests of these functions need a GPU and are not run.",
      ["visibility/sdp_tiled_functions.cpp", "visibility/private_tiled_functions.h", "visibility/sdp_opt_weighting.cpp"],
      [("tile range computation, prefix sum, bucket sort", "src/ska-sdp-func/visibility/sdp_tiled_functions.cpp")],
      [("tile_offsets", "next free position in each bucket", "argument")]),
    P("P08", "Channel clamping selects the channels inside the given uv(w) range",
      "For every row, the clamped channel range is contained in the range given, contains every channel whose scaled coordinate lies inside the bounds, and excludes (to rounding) every channel whose coordinate lies outside; a row with no such channel gets an empty range. "
      "The overall uvw bounds contain every selected visibility and are attained, and ranges selected with adjacent bounds are disjoint and together cover the channels.",
      ["inputs"],
      "Every coordinate (both signs, zero), frequency setup, bounds and initial ranges, both precisions.",
      "Tests use one data set with positive bounds.",
      ["grid_data/sdp_gridder_clamp_channels.cpp", "grid_data/private_clamp_channels.h", "grid_data/sdp_gridder_utils.cpp"],
      [("clamp_channels_inline, uvw_bounds_all", "src/ska-sdp-func/grid_data/")],),
    P("P09", "Hogbom CLEAN subtracts what it adds to the model, peak by peak",
      "Each iteration takes the maximum of the residual, adds loop-gain times that value to the component list at that pixel, and subtracts the point-spread function centred there scaled by the same amount; it stops at the cycle limit or when the peak falls below the threshold. "
      "The component model, residual and restored image returned are those of that process.",
      ["inputs", "histories"],
      "Every dirty image, PSF, gain, threshold and cycle limit, in both precisions.",
      "The stable tests do not run CLEAN at all.",
      ["clean/sdp_hogbom_clean.cpp"],
      [("minor cycle loop", "src/ska-sdp-func/clean/sdp_hogbom_clean.cpp")],
      [("residual, components", "minor-cycle state", "create_residual / clean loop")]),
    P("P10", "Multi-scale CLEAN subtracts what it adds, at the best scale",
      "Each iteration picks the scale with the largest bias-normalised peak, adds loop-gain times that value times the scale's kernel to the model at that pixel, and subtracts the correspondingly convolved point-spread function from the residual at every scale; it stops at the cycle limit or when the peak falls below the threshold. "
      "The model, residual and restored image returned are those of that process.",
      ["inputs", "histories"],
      "Every dirty image, PSF, scale list, gain, threshold and cycle limit.",
      "The stable tests do not run CLEAN at all.",
      ["clean/sdp_ms_clean_cornwell.cpp"],
      [("minor cycle loop, coupling matrix, scale selection", "src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp")]),
    P("P11", "FFT convolution equals direct convolution",
      "Convolving two square images gives an image as large as the first which holds, in every pixel, the sum over the second image of products with the first, centred on pixel (size - 1)/2 (rounded down) of the second image. Inputs are unchanged.",
      ["inputs"],
      "Every pair of sizes (odd, even, powers of two, unequal), pixel values and both precisions.",
      "One pair of sizes is tested.",
      ["numeric_functions/sdp_fft_convolution.cpp"],
      [("padding, transform product, cropping", "src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp")]),
    P("P12", "FFT: forward and inverse transforms, batches, shift and normalisation",
      "A forward (inverse) transform of any complex array gives the unnormalised discrete Fourier sum with negative (positive) exponent along the transformed dimensions, independently for each batch member, so a forward then inverse transform multiplies the data by the number of points. "
      "The shifted transform of even-sized 2D images applies the sign pattern (-1)^(i+j) before and after, which places the origin at the centre for sizes that are a multiple of four; normalisation divides by the number of points.",
      ["inputs", "configurations"],
      "Every size, number of dimensions, batch count, direction and precision; arbitrary data.",
      "A few sizes are compared with numpy.",
      ["fourier_transforms/sdp_fft.cpp"],
      [("plan creation, per-axis transforms, phase and normalise helpers", "src/ska-sdp-func/fourier_transforms/sdp_fft.cpp")]),
    P("P13", "Padded FFT sizes are the smallest sufficient smooth numbers",
      "The padded grid size for an image size and padding factor is the smallest even number with no prime factor above 11 that is at least their product rounded up. "
      "The good-size helper returns the smallest such number, even or odd, that is at least its argument.",
      ["inputs"],
      "Every size and padding factor.",
      "A handful of sizes are tested.",
      ["fourier_transforms/sdp_fft_padded_size.cpp", "grid_data/sdp_gridder_uvw_es_fft_utils.cpp"],
      [("smooth number search", "src/ska-sdp-func/fourier_transforms/sdp_fft_padded_size.cpp")]),
    P("P14", "Distributed FFT: facet and sub-grid contributions are exact linear maps",
      "Each step of the streaming Fourier transform (prepare, extract, add, finish; facet to sub-grid and back; one- and two-dimensional; in place or not) places each input sample, windowed and transformed, at the positions given by the facet and sub-grid offsets modulo the image size, adding to what is there where it accumulates. "
      "Offsets that differ by a multiple of the image size give the same result, and nothing outside the arrays is accessed.",
      ["inputs", "configurations"],
      "Every valid size configuration, facet and sub-grid offset (of either sign), array shape and layout.",
      "The tests use one configuration and in-range offsets.",
      ["fourier_transforms/sdp_swiftly.cpp"],
      [("index maps of each step", "src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp")]),
    P("P15", "DFT prediction and phase rotation sum exact phases per visibility",
      "Each predicted visibility is the sum over sources of flux times the phase of the source direction at that baseline, time and channel, and rotating visibilities multiplies each by the phase of the old-to-new phase centre shift at its own coordinates. "
      "Rotating coordinates is the rotation taking the old phase centre frame to the new one.",
      ["inputs"],
      "Every number of sources, baselines, times, channels and polarisations; every source direction and phase centre; every precision combination.",
      "Tests compare one random data set to the same formula.",
      ["visibility/sdp_dft.cpp", "visibility/sdp_phase_rotate.cpp"],
      [("phase accumulation, index order", "src/ska-sdp-func/visibility/")]),
    P("P16", "Gridding building blocks move each element to its documented place",
      "The gridding helpers (sub-grid add and cut-out with wrap-around, sub-grid shift, scaled accumulation and inverse scaling, direction-cosine tables, row-weight sums, non-zero counts, residual statistics) change exactly the elements they are defined on, with the documented value, for any offset and layout.",
      ["inputs"],
      "Every size parity, offset of either sign, factor, exponent, precision combination and layout.",
      "They are reached only through whole gridding runs.",
      ["grid_data/sdp_gridder_utils.cpp"],
      [("element loops and wrap-around index arithmetic", "src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp")]),
    P("P17", "Direct gridder and degridder are exact Fourier sums over the selected data",
      "Direct degridding adds to each selected visibility the Fourier sum of the sub-grid image at that visibility's coordinates relative to the sub-grid offset, and direct gridding adds to the image the conjugate sum over selected visibilities; visibilities outside the channel ranges neither contribute nor change.",
      ["inputs"],
      "Every image, coordinates, offsets, channel ranges and row ranges.",
      "The direct gridder is the reference in tests, not the subject.",
      ["grid_data/sdp_gridder_direct.cpp", "grid_data/sdp_gridder_utils.cpp"],
      [("selection by start/end channel and the direct sums", "src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp")]),
    P("P18", "W-towers gridder: accuracy, selection, linearity and adjointness",
      "For visibilities inside the supported region, sub-grid degridding and gridding agree with the direct Fourier sum to the accuracy of the kernel, are linear in their input, and are adjoint to each other. "
      "Visibilities outside the channel ranges, row ranges or the sub-grid are left unchanged and contribute nothing, and no access is made outside the arrays.",
      ["inputs", "configurations"],
      "Every coordinate (all signs), sub-grid offset, channel range, row range, kernel support and oversampling, precision combination.",
      "One coordinate set is compared against the direct sum with a loose tolerance.",
      ["grid_data/sdp_gridder_wtower_uvw.cpp"],
      [("w-plane loop, channel clamping, kernel indexing", "src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp")]),
    P("P19", "Imaging task pool: every visibility processed exactly once, any thread count",
      "When a whole data set is degridded or gridded, every visibility in range is processed by exactly one task, and no sub-grid or output region is written by two tasks at once, so the result agrees with the direct Fourier sum for any number of threads. "
      "Output is the same, to rounding, whatever the thread count and schedule.",
      ["schedules", "inputs"],
      "Every thread count, interleaving of workers, data distribution over w-layers and sub-grids.",
      "Tests run one thread count and compare to a loose tolerance; they do not explore schedules.",
      ["grid_data/sdp_grid_wstack_wtower.cpp"],
      [("task creation, pick_task under mutex, per-w-plane loop", "src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp")],
      [("task list, next task", "work distribution", "sdp_grid_wstack_wtower.cpp")]),
    P("P20", "Custom-kernel degridding reads exactly the kernel footprint",
      "Each degridded visibility is the sum of the grid cells under the (u,v,w) kernel footprint around its rounded position, weighted by the kernel row for its fractional position (conjugated on request), for every channel and polarisation. "
      "A visibility whose footprint is not inside the grid is left unchanged.",
      ["inputs"],
      "Every coordinate (both signs), oversampling, kernel size, grid shape, number of channels and polarisations.",
      "The test uses random coordinates well inside a square grid.",
      ["grid_data/sdp_degrid_uvw_custom.cpp"],
      [("coordinate to index arithmetic and bounds test", "src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp")]),
    P("P21", "RFI flagger raises a flag exactly where a threshold is exceeded",
      "A visibility is flagged exactly when a threshold condition on its magnitude deviation, its rate of change, its transit score or broadband statistic holds at that sample, or when it lies within the requested window of such a sample. "
      "Flags of all other samples are unchanged and baselines and polarisations do not influence each other.",
      ["inputs", "histories"],
      "Every visibility series, threshold setting, window size and sampling step.",
      "The tests check one injected spike.",
      ["visibility/sdp_flagger.cpp"],
      [("threshold statistics, median/MAD, window", "src/ska-sdp-func/visibility/sdp_flagger.cpp")],
      [("transit scores, median history", "per-baseline history over time", "flagger loop")]),
    P("P22", "Station and element beams are exact per-direction sums",
      "The station beam in each output direction is the sum over elements of weight times element response times geometric phase, normalised on request, written at the requested output indices only. "
      "The dipole element response follows its closed form in every requested direction and is written only at the requested offset and stride. "
      "The spherical-wave element response is the sum of the vector spherical modes weighted by the given coefficients, in every direction (an azimuth that is not a number gives one that is not), at the requested offset only.",
      ["inputs"],
      "Every element layout, direction, index mapping, offset, stride, normalisation and precision.",
      "Tests use one station and direct output indices.",
      ["station_beam/sdp_station.cpp", "station_beam/sdp_element_dipole.cpp", "station_beam/sdp_element_spherical_wave_harp.cpp"],
      [("index mapping and phase sum", "src/ska-sdp-func/station_beam/")]),
    P("P23", "Spheroidal window: the right eigenfunction, tabulated completely and exactly",
      "The window of mode m and size parameter c is the positive, even, decreasing function on (-1, 1), with its peak normalised to (2m-1)!!, that the band-limiting integral of c maps to a multiple of itself; it is zero outside. A table of any size and type holds its values at 2(i - size/2)/size in every element (the edge element of an even table is zero, or 1e-15 when corrected), and a plan keeps the last table it was asked to keep.",
      ["inputs"],
      "Every support parameter, table size, precision.",
      "Three sizes are compared against tables.",
      ["fourier_transforms/sdp_pswf.cpp"],
      [("sdp_pswf_create / generate / evaluate", "src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp")]),
    P("P24", "Bad arguments: the right error code, and nothing written",
      "Every processing function that is given arguments it cannot use (an element type it does not support or that does not match its other arguments, the wrong number of dimensions, a size that does not fit the other arrays, memory in another place or with gaps it cannot follow, a write-protected output, an invalid size or option) sets the error code that names the reason and writes to none of its outputs. "
      "Called with a status that already holds an error, it keeps that error and writes nothing, so an error travels unchanged to the end of a chain of calls. "
      "With valid arguments it returns success, and it never writes to an input.",
      ["inputs", "histories"],
      "Every processing function, every single invalid argument and pairs of them, anywhere in a chain of calls that share a status.",
      "Tests try two or three invalid combinations for a few functions, each with a fresh status.",
      ["visibility/", "grid_data/", "clean/", "fourier_transforms/", "numeric_functions/", "station_beam/", "examples/"],
      [("argument checks at the head of each public function", "src/ska-sdp-func/"), ("shared checks of arrays", "src/ska-sdp-func/utility/sdp_mem.cpp"), ("visibility data model", "src/ska-sdp-func/utility/sdp_data_model_checks.c")]),
    P("P25", "Python arrays reach the library with the same type, shape, layout and mode",
      "A numpy array handed to the library from Python is described to it with the same element type, dimensions, byte strides, data address and writability, whatever view of whatever memory it is, and anything the library cannot represent is refused with a TypeError. "
      "From then on both sides see the same memory: what one writes the other reads, at exactly that element. "
      "The memory lives as long as a Python array or a descriptor of it is held, and no longer. "
      "An error set by the library becomes a Python exception carrying its code, with nothing written, and success raises nothing.",
      ["inputs", "histories"],
      "Every dtype, shape, chain of views (transposed, reversed, strided, sliced, broadcast, write-protected), and every history of making, wrapping, writing, forgetting and freeing.",
      "Python tests pass contiguous writable arrays that outlive the call.",
      ["src/ska_sdp_func/utility/mem.py", "src/ska_sdp_func/utility/error_checking.py", "src/ska_sdp_func/utility/struct_wrapper.py"],
      [("Mem wrapper", "src/ska_sdp_func/utility/mem.py"), ("error mapping", "src/ska_sdp_func/utility/error_checking.py")]),
    P("P26", "Grid correction divides out the kernels and turns by the w-stack phase",
      "Correcting a facet divides each pixel by the images of the gridding kernels in u, v and (inside its support) w at that pixel's place in the whole image, and multiplies complex pixels by the phase of the given w-stack layer, with opposite signs for degridding and gridding; a layer offset of zero turns nothing. "
      "So correcting an image facet by facet, at any facet offsets, equals correcting it whole, and types that are not supported are refused unchanged.",
      ["inputs", "configurations"],
      "Every image and facet size (odd and even), facet offset inside the image, layer, shear, support, precision and memory layout.",
      "Tests correct one facet per gridder and compare with the same formula.",
      ["grid_data/sdp_gridder_grid_correct.cpp", "grid_data/sdp_gridder_direct.cpp", "grid_data/sdp_gridder_wtower_uvw.cpp"],
      [("grid_corr_pswf, grid_corr_w_stack", "src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp")]),
    P("P27", "Each Python function makes the C call it stands for, with the caller's values",
      "Calling a function or method of the Python package, or reading one of its properties, calls exactly the C functions it stands for, in order, with every argument of the caller in its place, whether given by position or by name, unshortened, and with the documented default for an argument left out; None stands for no array. "
      "Every array the call describes to the library and every handle it makes is released exactly once, handles when the last reference to their Python object goes, also when a step fails. "
      "An error code becomes an exception naming it and a missing handle becomes an exception; after a failure no further C call with an effect is made. Objects do not mix up each other's handles.",
      ["inputs", "histories", "fault_sequences"],
      "Every public function, method, property and class of the package, every way of passing its arguments, every error code at every step, and any history of objects.",
      "Tests call each function with one set of positional arguments, and never see a failure half-way.",
      ["src/ska_sdp_func/"],
      [("function wrappers", "src/ska_sdp_func/"), ("Lib.wrap_func", "src/ska_sdp_func/utility/lib.py"), ("StructWrapper", "src/ska_sdp_func/utility/struct_wrapper.py")]),
    P("P28", "Sky coordinates keep the kind, values and epoch they were given",
      "A sky coordinate answers with the kind, the values and the epoch it was given, digit by digit: a value left out is 0, the epoch is 2000 until it is set, a dimension outside 0 to 2 has the value 0, and the kind is a copy of the caller's text. "
      "A copy has everything the original has and is independent of it from then on; an astropy ICRS coordinate gives its right ascension and declination in radians. "
      "Anything else is refused with an error and changes nothing, and the C functions do nothing to a null object and answer 0 or null about it.",
      ["inputs", "histories"],
      "Every kind, value and epoch, and every history of making, copying, changing and dropping several objects from Python and C.",
      "Tests make two or three coordinates and read them back at once.",
      ["utility/sdp_sky_coord.c", "utility/sdp_sky_coord.h", "src/ska_sdp_func/utility/sky_coord.py"],
      [("sdp_sky_coord_*", "src/ska-sdp-func/utility/sdp_sky_coord.c"), ("SkyCoord", "src/ska_sdp_func/utility/sky_coord.py")]),
    P("P29", "The w-tower height is where the gridder stops being accurate enough",
      "The height chosen for a tower of w-planes is twice the number of planes K at which the gridder's error is still below the target while it is not at K + 1 (zero if already one plane is too far); when the error only grows with distance, K is the largest such number. "
      "The error is the root mean square difference between degridding the worst-case image and its exact sum, over a square of sample points covering the used part of the sub-grid; the target is twice the error in the plane unless given. "
      "The worst-case image holds exactly four sources near the corners of the field of view, at distances that do not divide the image, and is refused when they do not fit.",
      ["inputs", "configurations"],
      "Every image and sub-grid size, support, oversampling, shear, field of view, number of samples, target.",
      "Tests compare a few configurations with a copy of the same search.",
      ["grid_data/sdp_gridder_wtower_height.cpp"],
      [("sdp_gridder_determine_max_w_tower_height", "src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp"), ("sdp_gridder_worst_case_image", "src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp")]),
    P("P30", "The same call has the same result, whatever ran before it or runs beside it",
      "A call's error code and results are a function of its arguments alone. They are the same when it is the first call of a process and when it follows any other calls; when it uses a plan that earlier calls have used; with one OpenMP thread or several; and while other threads make calls of their own, of this or another function, on the same read-only inputs. "
      "Arrays a call only reads keep their contents. Sums may be taken in another order, so results agree to rounding.",
      ["inputs", "schedules", "histories"],
      "Every order and overlap of calls on different outputs; plans are shared between successive calls, not between simultaneous ones; contents of freshly allocated memory.",
      "Tests call each function once or twice, from one thread, in a fixed order; a result kept in static storage, a race or an uninitialised value usually leaves them right.",
      ["grid_data/sdp_gridder_grid_correct.cpp", "fourier_transforms/sdp_fft.cpp", "utility/sdp_logging.c", "fourier_transforms/sdp_pswf.cpp"],
      [("call machine", "src/ska-sdp-func/fourier_transforms/sdp_fft.cpp"), ("sdp_log_message", "src/ska-sdp-func/utility/sdp_logging.c")]),
    P("P31", "An array is accepted as visibility data exactly when it is",
      "Coordinates are real, floating-point (times, baselines, 3) arrays, visibilities complex (times, baselines, channels, polarisations) arrays with one or four polarisations, weights such arrays that are not complex; all are C-contiguous. A check accepts an array exactly when it is of its kind and has the expected sizes, type (any, for VOID) and place; asking for its metadata succeeds exactly when it is of its kind, and reports its type, place and sizes, to whoever asked for them and nothing else. "
      "Otherwise the error code is that of a requirement that is not met; a status that holds an error is kept and nothing is reported.",
      ["inputs", "histories"],
      "Every type, number of dimensions, size, layout and place; every chain of calls with one status.",
      "Tests see these checks only through functions given good arrays, or with one flaw.",
      ["utility/sdp_data_model_checks.c"],
      [("sdp_data_model_check_*, sdp_data_model_get_*_metadata", "src/ska-sdp-func/utility/sdp_data_model_checks.c")]),
    P("P32", "Every message that passes the filter is one whole, correct log line",
      "A message whose level is at least the one named by SKA_SDP_FUNC_LOG_LEVEL (INFO when it is not set) becomes exactly one whole line of the SKA log format in its stream, with its level, function, file, line and text, whichever threads log at the same time and however long it is; other messages become nothing. "
      "A thread's lines are in the order of its calls, and each bears the time of its call in UTC, whatever the time zone and the moment.",
      ["inputs", "schedules", "configurations"],
      "Every level, filter, text, stream and buffering; every overlap of calls; every moment, also next to the end of a second, day or year.",
      "No test reads the log.",
      ["utility/sdp_logging.c", "utility/sdp_logging.h"],
      [("sdp_log_message", "src/ska-sdp-func/utility/sdp_logging.c"), ("SDP_LOG_*", "src/ska-sdp-func/utility/sdp_logging.h")]),
]
