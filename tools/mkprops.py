#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, pathlib
SS = "src/razorback/signalset.py"
U = "src/razorback/utils.py"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Joining signal sets gives exactly the union of their runs, by channel name",
 "Joining signal sets, or tagging raw synchronous recordings, gives exactly all their runs in start-time order: every run keeps its samples, start time, sampling rate and per-channel calibration, and every tag still designates the same recordings even when the operands number their channels differently. "
 "Runs that overlap in time (touching end points are allowed), operands whose tag names differ, and runs whose channel counts differ are refused, whatever the order of the operands.",
 ["inputs", "histories"],
 "all tags/channel numberings, numbers of operands, runs and channels, time layouts (gaps, touching, overlapping), sampling rates, calibrations, eager or lazy data, and all sets obtained by earlier operations",
 "the doctest joins three fixed 3-channel sets and compares a handful of intervals and arrays; no test joins sets with calibrations, untagged channels, one-sample runs, refused overlaps or more than one permutation of tags",
 [SS], [("overlap and length checks, sort by start", f"{SS}: SignalSet.__init__"), ("channel renumbering by tag name", f"{SS}: SignalSet._reorder_data"), ("join / | operator, Tags | signal", f"{SS}: SignalSet.join, Tags.__or__")],
 [("SignalSet._signals", "time-sorted runs", SS), ("SignalSet._tags", "name -> channel indices", SS)],
 ["SignalSet.signals, .tags, .intervals; SyncSignal.data, .calibrations"])

prop("C02", "Merging signal sets keeps exactly their common synchronous time",
 "Merging signal sets puts all their channels side by side (operands in order, tags following their channels) on exactly the maximal time intervals on which every operand has a run at one common sampling rate, with every sample still at its own time and every calibration with its own channel. "
 "Overlaps between runs of different sampling rates, or too short to hold two samples, contribute nothing. "
 "Shared tag names, and overlapping runs of the same sampling rate whose sampling clocks are not aligned, are refused.",
 ["inputs", "histories"],
 "all numbers of operands (2..4), run layouts (nested, staggered, touching, disjoint, empty sets, one-sample runs), sampling rates, clock offsets, tag tables and calibrations",
 "tests merge one fixed fake inventory and one two-channel set built from the same signals, and compare intervals only: never samples, calibrations, three operands, different rates or misaligned clocks",
 [SS], [("recursive common-interval search and re-assembly", f"{SS}: SignalSet.merge"), ("per-operand cut", f"{SS}: SignalSet.extract_t, SyncSignal.extract_i")],
 [("intervals", "common intervals", f"{SS}: merge.rec")], ["SignalSet.merge / & result"])

prop("C03", "Restricting in time keeps exactly the samples inside the interval",
 "Restricting a signal set to [start, stop] keeps, run by run, exactly the samples whose time lies in that closed interval, at their original times and with tags, channels, sampling rate and calibrations unchanged; runs left with fewer than two samples disappear, and a single run cut by sample numbers keeps exactly these samples. "
 "Excluding an interval keeps exactly the samples up to its start and those from its stop on, as separate runs. "
 "This holds at any epoch and for any sampling rate, including those whose sample times are not exactly representable in floating point; in strict mode a single run refuses bounds outside its own interval.",
 ["inputs", "histories"],
 "all run layouts, sampling rates (dyadic or not), epochs (0 to POSIX dates), interval bounds on, between and outside sample times, and sets that were already cut, joined or merged",
 "a single extract_t(5, 25) at 1 Hz with integer times is tested; rounding of time to index is only wrong for particular combinations of epoch, rate and bound",
 [SS], [("time -> index rounding", f"{SS}: SyncSignal._time_to_index"), ("cut", f"{SS}: SyncSignal.extract_i/extract_t"), ("short-run removal, exclusion", f"{SS}: SignalSet.extract_t")],
 [], ["SignalSet.extract_t, SyncSignal.extract_t"])

prop("C04", "Selecting channels keeps the right recordings, order and tags",
 "Selecting channels by any mix of tag names, channel numbers or a slice (by method, index or attribute syntax) gives exactly these channels, once each and in their original order, with the same runs, samples and calibrations. "
 "A tag survives if and only if all its channels are selected, and it then still designates the same recordings in the same order. "
 "Unknown tags or channel numbers are refused.",
 ["inputs", "histories"],
 "all tag tables (groups, repeated, overlapping, permuted tags, untagged channels), selectors, channel and run counts",
 "the doctest selects from one 3-channel set with one two-channel group tag",
 [SS], [("selection and re-indexing of tags", f"{SS}: SignalSet.select_channels, SyncSignal.select"), ("syntactic sugar", f"{SS}: SignalSet.__getitem__, __getattr__")],
 [], ["SignalSet.select_channels, s[...], s.name"])

prop("C05", "Run selection and fusing of consecutive runs lose or move no sample",
 "Selecting runs by number, list, slice or boolean mask keeps exactly the designated runs, unchanged and in time order. "
 "Merging consecutive runs fuses exactly the maximal chains of neighbouring runs of equal sampling rate in which each run starts one sampling period after the previous one stops, concatenating their samples channel by channel and keeping the first run's start and calibrations; all other runs are left untouched. "
 "No sample is lost, duplicated, reordered or moved in time, at any sampling rate or epoch.",
 ["inputs", "histories"],
 "all run sequences: chain lengths, gaps of other sizes, several interleaved sampling rates, tagged or untagged channels, dyadic and non-dyadic rates at any epoch",
 "the tests of run merging compare intervals only, never the samples, calibrations or tags, always at dyadic rates with every channel tagged",
 [SS], [("fusing", f"{SS}: SignalSet.merge_consecutive_runs, _group_indices"), ("selection", f"{SS}: SignalSet.select_runs")],
 [], ["SignalSet.select_runs, merge_consecutive_runs"])

prop("C06", "A tag table always maps names to channels inside its range",
 "Through any sequence of updates, a tag table maps each name to a non-empty tuple of channel numbers inside its declared range, item and attribute access always agree, and a rejected entry (name not starting with a letter, empty value, number out of range) is never entered and leaves every other entry as it was. "
 "Two tables are equal exactly when they have the same names, the same tuples and the same range; looking names up by shell patterns gives exactly the matching names, or the sorted set of their channels. "
 "Replacing the tags of a signal set is refused when the new table refers to channels the set does not have.",
 ["histories", "inputs"],
 "all sequences of set/delete/update/attribute operations with valid and invalid names and values on tables of any range",
 "tests only build valid tables and compare two of them",
 [SS], [("checked assignment", f"{SS}: TagsBase.__setitem__"), ("attribute emulation", f"{SS}: TagsBase.__getattribute__/__setattr__/__delattr__"), ("pattern lookup", f"{SS}: Tags.filter, filter_get"), ("range check on signal sets", f"{SS}: SignalSet.tags setter")],
 [("TagsBase._tags/_indices", "mapping and range", SS)], ["Tags mapping API"])

prop("C07", "Operations never change their operands, and results share no tag state",
 "No operation on signal sets or inventories (join, merge, selection, time restriction, fusing, packing, filtering, group extraction, copying, estimation) changes any object it was given: its runs, samples, times, calibrations and tags stay as they were, also when the operation is refused. "
 "Editing the tags of a set is visible in that set only, never in sets it was derived from or that were derived from it.",
 ["histories"],
 "all interleavings of operations and tag edits over a population of sets and inventories derived from each other",
 "no test looks at an operand again after an operation, and none edits tags of derived sets",
 [SS, U], [("copies of tags on construction", f"{SS}: SignalSet.tags setter"), ("new objects built by each operation", f"{SS}: SignalSet.*, Inventory.*")],
 [], ["every public accessor of every live object after every step"])

prop("C08", "Inventory queries return exactly the requested part of each element",
 "Selecting inventory channels by tag names or shell patterns, restricting it in time, or selecting runs gives a new inventory holding, element by element and in order, exactly the requested channels, times or runs of each element, and dropping only elements left with nothing. "
 "The inventory's tag set and its per-element sampling rates, starts, stops and intervals are those of its elements; adding inventories concatenates them. "
 "Anything that is not a signal set is refused entry.",
 ["inputs", "histories"],
 "all inventories (sizes, heterogeneous elements, empty elements), patterns with *, ?, [seq], [!seq], name lists, intervals and run selectors",
 "tests use one three-element inventory and exact tag names; filter(), extract_t(), select_runs(), extract_groups() and append checks are not tested",
 [SS], [("queries", f"{SS}: Inventory.select_channels, filter, extract_t, select_runs, tags"), ("entry check", f"{SS}: Inventory._assert_valid_element")],
 [("Inventory._content", "list of signal sets", SS)], ["Inventory iteration"])

prop("C09", "Packing an inventory gives exactly the common coverage of all its tags",
 "Packing an inventory gives one signal set holding every tag of the inventory, whose runs are exactly the maximal intervals, for each sampling rate, on which every tag is being recorded, pieces that follow each other without gap being fused and pieces of a single sample left out; at each time every tag gives the samples and calibration its own recording has there. "
 "The outcome does not depend on the order of the elements, and it has no run when no such interval exists. "
 "When only single-channel tags are kept, or when channels are gathered in new groups, the same holds for the remaining or grouped tags.",
 ["inputs", "histories"],
 "all inventories whose recordings of one tag do not overlap: numbers of sites, files per site, sampling rates, gaps, multi-channel tags, element orders",
 "no test calls pack(); merge() is compared on one fixed inventory by its intervals only",
 [SS], [("pack", f"{SS}: Inventory.pack, _join_merge, extract_groups")],
 [], ["Inventory.pack, merge, extract_groups"])

prop("C10", "Fourier coefficients come from exactly the announced windows of each run",
 "For each run of N samples the coefficients at a frequency are computed on windows of ceil(Nper * rate / freq) samples, shifted by floor(length * (1 - overlap)), as many as fit and none reaching outside its run; runs follow each other in time order and the reported window counts, lengths and shifts say exactly where each coefficient comes from. "
 "Each coefficient is 2/length times the sum of taper * sample * exp(-2i pi freq k / rate) over its window, divided by the calibration of its own channel at that frequency, whatever the storage or chunking of the data. "
 "A frequency that is not positive, above half the sampling rate of some run, or too low for two windows in some run is refused.",
 ["inputs", "configurations"],
 "all run lengths and counts, sampling rates, frequencies, Nper, overlaps, tapers, calibrations, storage (arrays, lists, lazy chunked arrays)",
 "tests compare one cosine split in two runs with no overlap and no taper, and the impedance test only sees ratios of coefficients",
 ["src/razorback/fourier_transform.py", SS], [("window geometry", "src/razorback/fourier_transform.py: discrete_window"), ("sliding transform", "src/razorback/fourier_transform.py: time_to_freq"), ("calibration and stacking", f"{SS}: SyncSignal/SignalSet.fourier_coefficients")],
 [], ["fourier_coefficients() results"])

prop("C11", "Robust estimation reports exactly the observations it rejected",
 "A robust transfer-function estimation runs its weighting steps in order, each only on observations not rejected so far; within a step weights are recomputed from the current residuals until the weighted residual changes by less than the tolerance, and a step that has not converged after the allowed iterations fails with the non-convergence error. "
 "The reported rejected indices are, for each output, exactly the given invalid ones plus those whose weight became zero in some step, in original numbering, increasing and without duplicates; a step left without any observation is refused. "
 "The estimate is the weighted least-squares solution on the kept observations with the last weights.",
 ["inputs", "histories"],
 "all numbers of outputs, inputs, observations and steps, given invalid indices (none, shared, per output), weight functions (including ones that reject different observations at each iteration) and tolerances",
 "the only estimation test checks recovered values and the number of rejected times on one data set, so wrong numbering, re-use of rejected observations or a wrong stop goes unseen",
 ["src/razorback/mestimator.py"], [("chain of steps", "src/razorback/mestimator.py: chain_m_estimate, transfer_function"), ("iteration", "src/razorback/mestimator.py: m_estimate, _eval_weight"), ("index translation", "src/razorback/mestimator.py: merge_invalid_indices, eliminate"), ("least squares", "src/razorback/mestimator.py: wlse")],
 [("ii", "indices rejected by the step", "src/razorback/mestimator.py: chain_m_estimate")], ["weight function calls and transfer_function() result"])

prop("C12", "An estimate depends only on its own inputs, never on earlier estimations",
 "Estimating with given data, weights and options gives the same result whatever was estimated before with the same weighting objects in the process: other outputs, other frequencies, other data sizes, failed, non-converged or interrupted estimations. "
 "The results for several outputs or several frequencies are those obtained one at a time, in any order.",
 ["histories", "fault_sequences"],
 "all sequences of estimations sharing weighting objects (the predefined M-estimator and bounded-influence ones are shared globally), including sequences in which an estimation fails midway",
 "weighting objects keep state between calls, but tests run each estimation once per process and never compare orders or re-use after a failure",
 ["src/razorback/weights.py", "src/razorback/mestimator.py", U], [("per-estimation state reset at the first iteration", "src/razorback/weights.py: Thomson.__call__, BoundedInfluenceStep.__call__"), ("loop over outputs / frequencies", "src/razorback/mestimator.py: transfer_function; src/razorback/utils.py: impedance")],
 [("Thomson._data, BoundedInfluenceStep._prev", "state kept between iterations", "src/razorback/weights.py")], ["transfer_function(), impedance() results"])

prop("C13", "A frequency that cannot be estimated never disturbs the others",
 "The impedance of a list of frequencies has one entry per frequency in the given order, with fixed shapes: outputs by inputs for impedance and error, inputs by remote channels for the remote transfer. "
 "A frequency for which windowing, prefiltering or either regression fails yields NaN impedance and error and no rejected times, and leaves all other frequencies exactly as if it had not been asked for. "
 "When silent failure is switched off, a failing prefilter or regression is reported as an exception.",
 ["fault_sequences", "inputs"],
 "all sequences of frequencies in which any subset fails at any stage (frequency too high, too low, calibration, prefilter or weight function failing, singular inputs, all observations rejected, no convergence), with or without remote, any channel counts",
 "tests check a single failing frequency alone, for two causes, with one electric and one magnetic channel",
 [U], [("per-frequency containment", f"{U}: _impedance"), ("assembly", f"{U}: impedance")],
 [], ["ImpedanceResult"])

prop("C14", "The impedance pipeline feeds each stage the right channels and rejections",
 "Without remote, each electric output is regressed on the magnetic channels; with remote, the magnetic channels are first regressed on the remote ones (with the remote prefilter and weights, or the main ones if none is given) and the electric channels are then regressed on the magnetic fields predicted from the remotes. "
 "Windows rejected by a prefilter are never used by the regression it protects, and windows rejected in the first stage for any magnetic channel are never used in the second. "
 "For exact linear data the exact tensor is returned, and when rejected times are requested they are precisely the centre times of the rejected windows of each output, in the run they belong to.",
 ["inputs", "configurations"],
 "all tag tables (permuted channels, other tag names), numbers of electric, magnetic and remote channels, runs with different sampling rates, prefilters and weights rejecting any windows at any stage",
 "tests use one electric and one magnetic channel with the magnetic channel as its own remote, and check only the number of rejected times",
 [U], [("two-stage estimation", f"{U}: _impedance"), ("prefilter union", f"{U}: apply_prefilter"), ("window index -> time", f"{U}: _impedance (keep_invalid_times)")],
 [], ["calls of user-supplied prefilter and weight functions; ImpedanceResult"])

prop("C15", "Massive processing covers every remote combination and interval, aligned",
 "Massive processing returns one result per combination of remotes (every subset, or only the full set on request), per time interval and per frequency, each being what the single estimation gives on the inventory packed for that combination and restricted to that interval. "
 "The list of combinations, impedances, rejected times, errors and remote transfers are aligned with each other and with the requested intervals and frequencies. "
 "The inventory, lists and options it is given are left as they were.",
 ["inputs", "configurations"],
 "all numbers of remotes, intervals and frequencies, inventories spread over several elements, estimation options",
 "massive processing is not tested at all",
 [U, SS], [("loops and assembly", f"{U}: impedance_mass_proc"), ("remote group", f"{SS}: Inventory.extract_groups")],
 [], ["MassProcResult"])

prop("C16", "Indexing a lazily read binary file is indexing its full content",
 "Reading any part of a lazily loaded binary file by integers or slices (any start, stop or step, negative or out of range) gives exactly the values that the same index gives on the whole content, and invalid indices are refused. "
 "A file shorter than announced is reduced to the whole values it holds, with a warning; a file that shrinks after loading makes the affected reads fail, never return wrong or shifted values.",
 ["inputs", "fault_sequences"],
 "all file sizes, offsets, value types, announced sizes, index expressions, and truncations or rewrites between loading and reading",
 "only forward contiguous reads of a fake proxy through dask are exercised by tests; files never are",
 ["src/razorback/io/binary_file_array.py"], [("index normalisation", "src/razorback/io/binary_file_array.py: BaseArrayProxy._to_slice"), ("read", "src/razorback/io/binary_file_array.py: BinaryFileArray_1D.extract, _get_real_size")],
 [], ["proxy[...] and dask arrays built on it"])

prop("C17", "Loading ATS files attaches each file's own samples, clock and scale",
 "Loading a list of ATS files gives one synchronous recording with one channel per file in the given order, starting at the header's start time with the header's sampling rate, each sample being the stored integer times that file's scale factor, and the given calibrations in the same order. "
 "Files with different start times, sampling rates or lengths are refused together. "
 "Recordings loaded from different files never exchange samples, however they are later combined or processed, wherever the files are and whatever they are called.",
 ["inputs", "histories"],
 "all numbers of files, headers (header length, scale, rate, start, announced length), directories and relative or absolute paths, working directory changes, and later joint processing",
 "no test reads an ATS file",
 ["src/razorback/io/ats.py", "src/razorback/io/binary_file_array.py"], [("header layout", "src/razorback/io/ats.py: read_ats_header"), ("assembly", "src/razorback/io/ats.py: load_ats, read_ats_sample"), ("lazy array identity", "src/razorback/io/binary_file_array.py: to_dask_array")],
 [], ["load_ats(), fourier_coefficients() of loaded data"])

prop("C18", "Calibration functions follow the right table, section and range",
 "A Metronix calibration uses the chopper-on section of its file when the sampling rate is at most the chopper limit and the chopper-off section otherwise; at tabulated frequencies it equals frequency * modulus * exp(i phase) of that row, between them it is the linear interpolation of the neighbours. "
 "Below the table it follows the sensor's low-frequency model with the chopper on and is refused with the chopper off; above the table, and for unknown sensor versions, it is refused. "
 "A Phoenix calibration uses, per channel, exactly the rows of the requested level.",
 ["inputs", "configurations"],
 "all file layouts (sections in either order, blank lines, trailing text, letter case), table sizes, sampling rates around the limit, limits, version patterns and frequencies",
 "no test reads a calibration file",
 ["src/razorback/calibrations.py", "src/razorback/data.py"], [("section and model choice", "src/razorback/calibrations.py: metronix"), ("level filter", "src/razorback/calibrations.py: phoenix")],
 [], ["returned calibration functions"])

prop("C19", "Data files resolve local first, and the CLI reports and creates that path",
 "The data path is the local data directory when it exists under the current directory and the packaged one otherwise; a data file is taken from the data path if present there, else from the packaged directory, else refused. "
 "The command line shows exactly that path for the current directory; with the create option it creates the missing local directory (parents included), reports an existing one without touching it, and otherwise creates or changes nothing. "
 "Commands contributed by plugins are listed and run together with the built-in ones.",
 ["histories", "configurations"],
 "all sequences of directory changes, directory or file creations and removals, path queries and CLI calls on a small file tree",
 "neither data.py nor cli.py is tested",
 ["src/razorback/data.py", "src/razorback/cli.py"], [("resolution", "src/razorback/data.py: data_path, get_data_file"), ("commands", "src/razorback/cli.py: path_action, PluginGroup")],
 [], ["data_path(), get_data_file(), rzb path"])

prop("C20", "Tags are derived from paths exactly as the pattern says",
 "For each given name, in order, a (name, tags) pair is produced if and only if the whole normalised name matches the pattern, where '*' stays within a path level, '**' crosses levels, '?' is one character, [seq] and [!seq] are character classes, and a field matches a non-empty run of letters, digits and underscores. "
 "The tags are the templates, in order, filled with the text matched by the pattern's fields, each element of the pattern taking, from left to right, the shortest text that lets the rest match; names that do not match are skipped. "
 "A template using a field the pattern does not have, or an empty or invalid field name, is refused.",
 ["inputs"],
 "all patterns built from these elements, names, templates and numbers of templates",
 "the only test prints the result and asserts nothing",
 [U], [("pattern translation", f"{U}: _prepare_pattern"), ("field check and filling", f"{U}: tags_from_path, _get_fields")],
 [], ["tags_from_path()"])

prop("C21", "The coherence prefilter rejects exactly the blocks out of bounds",
 "The coefficient-of-determination prefilter splits the windows into consecutive blocks of the configured size, the remainder joining the last block, and gives all windows of a block the multiple coherence of output and inputs on that block: the square root of one minus the ratio of least-squares residual energy to output energy. "
 "It rejects exactly the windows whose value is below the minimum or above the maximum, in increasing order.",
 ["inputs"],
 "all numbers of windows (including fewer than one block), block sizes, input channel counts, bounds and data",
 "prefilters are not tested",
 ["src/razorback/prefilters.py"], [("blocks and threshold", "src/razorback/prefilters.py: CoefficientOfDeterminationFilter")],
 [], ["filter call and .value()"])

prop("C22", "Robust weights are bounded, monotone, scale-free and ignore rejected data",
 "Huber weights are 1 up to a fixed multiple of the robust residual scale (median absolute deviation / 0.44845) and decrease as its inverse ratio beyond; Thomson weights lie in [0, 1], never increase with the residual and use the residual scale of the first iteration of the estimation. "
 "Weights do not change when residuals are all multiplied by a common non-zero factor or permuted together with their observations, bounded-influence weights never exceed the corresponding residual weights and give zero weight to already rejected observations. "
 "The predefined weightings chain plain least squares, then the robust steps in order of increasing severity.",
 ["inputs", "histories"],
 "all residual vectors (real, complex, with rejected entries), scale factors, permutations, tuning constants and iteration numbers",
 "tests only see the final impedance on nearly exact data",
 ["src/razorback/weights.py"], [("weight functions", "src/razorback/weights.py: Huber, Thomson, BoundedInfluenceStep, bi_weights, mad_scale")],
 [("Thomson._data['scale']", "scale frozen at first iteration", "src/razorback/weights.py")], ["weight function calls"])

prop("C23", "Error estimates follow the residuals, the input energy and the rejections",
 "The error of each impedance entry is the norm of that output's residual times the square root of the corresponding diagonal element of the inverse input cross-power matrix, times N/sqrt(N-p), divided by the number of observations kept for that output, N being the number of observations and p the number of inputs. "
 "Hence it is never negative, vanishes for an exact fit, and scales with the outputs and inversely with the inputs.",
 ["inputs"],
 "all numbers of outputs, inputs and observations, data and per-output rejections",
 "tests only check that the error is NaN on failure",
 ["src/razorback/mestimator.py"], [("formula", "src/razorback/mestimator.py: transfer_error")],
 [], ["transfer_error(), ImpedanceResult.error"])

prop("C24", "Prefilter values are given per window, with that window's time",
 "The values of a prefilter on a signal set are, for each requested frequency and each electric channel in tag order, what the prefilter gives on that channel's Fourier coefficients and those of the magnetic channels (one row per window), and they come with the centre times of exactly these windows, run after run. "
 "The massive computation gives such values and times for each combination of remotes (every subset) and each interval, in the order of massive processing, being those of the signal set restricted to that interval. "
 "A frequency that cannot be windowed is refused, and the signal set, lists and options given are left as they were.",
 ["inputs", "configurations"],
 "all tag tables and names, channel counts, runs of different sampling rates, frequencies, window options and their defaults, remotes and intervals",
 "no test calls these functions",
 [U], [("values and times of one set", f"{U}: prefilter_values"), ("combinations and intervals", f"{U}: prefilter_values_mass_proc")],
 [], ["prefilter_values(), prefilter_values_mass_proc()"])

prop("C25", "Default windowing and Slepian tapers tell tones apart at any window length",
 "Seen through the Slepian taper of parameter tau, a tone at the analysed frequency gives its own complex amplitude (its phase being taken at the start of each window), and constants or tones at least tau bins away give next to nothing, for any window of more than 2 tau samples, including those longer than the sizes at which tapers are computed exactly. "
 "Estimations that are given no windowing options use windows of 8 periods, an overlap of 71% and the taper of parameter 4; giving some of these options leaves the others at their default.",
 ["inputs", "configurations"],
 "all tones, window lengths (9 to thousands of samples), taper parameters, sampling rates, overlaps, runs of different rates, and subsets of options given",
 "the taper and the default options are used on two fixed data sets whose impedance does not depend on them",
 ["src/razorback/fourier_transform.py", U], [("taper", "src/razorback/fourier_transform.py: slepian, slepian_window"), ("default options", f"{U}: impedance, prefilter_values")],
 [], ["fourier_coefficients(), coefficients given to prefilters"])

prop("C26", "The real formulation weighs real and imaginary parts on their own",
 "The real formulation of a robust transfer-function estimation takes the real and imaginary parts of each observation as two observations and those of each coefficient as two unknowns, runs the same chain of steps on them (weight functions being given the parts, interleaved, and the real inputs), and returns the complex coefficients. "
 "The reported rejected indices are, for each output, the given invalid observations and those of which at least one part was rejected, in original numbering, increasing and without duplicates; both parts of a given invalid observation are left out. "
 "Without weights it gives what the complex formulation gives.",
 ["inputs"],
 "all numbers of outputs and observations, given invalid indices (none, shared, per output), weight functions rejecting either part, tolerances",
 "the option is used by no test",
 [U, "src/razorback/mestimator.py"], [("interleaving and index translation", f"{U}: transfer_function_real_prob")],
 [], ["weight function calls and transfer_function_real_prob() result"])

prop("C27", "Recorded samples are read when computed, and only those concerned",
 "Loading ATS files reads their headers only: selecting channels or runs, restricting in time, joining, merging, fusing consecutive runs, packing and copying the recordings read no sample, so they need no file any more and give the same channels, runs and times whether or not the files can be read at that moment. "
 "Computing samples or Fourier coefficients reads the files at that moment, and only those that hold samples of the channels and runs concerned: it gives what they then hold, fails if one of them cannot be read, and is not disturbed by any other file. "
 "Coefficients asked for without being computed (compute=False) read nothing until they are computed.",
 ["inputs", "histories", "fault_sequences"],
 "all histories in which files of a survey are moved away, brought back or rewritten between the operations on their recordings, all combinations of these operations, all chunk sizes",
 "tests load files that are always there and compute everything at once; a premature or superfluous read gives the same numbers, and only exhausts memory or fails on surveys the tests do not have",
 ["src/razorback/io/ats.py", SS, "src/razorback/io/binary_file_array.py", "src/razorback/fourier_transform.py"],
 [("lazy arrays on files", "src/razorback/io/ats.py: read_ats_sample; src/razorback/io/binary_file_array.py: to_dask_array, BinaryFileArray_1D.extract"),
  ("cuts, renumbering and concatenation of lazy arrays", f"{SS}: SyncSignal.extract_i, SignalSet._reorder_data, SignalSet.merge_consecutive_runs, Inventory.pack"),
  ("coefficients computed together or later", "src/razorback/fourier_transform.py: time_to_freq")],
 [("lazy samples of a run", "where samples are, not their values", f"{SS}: SyncSignal._data")],
 ["acceptance of operations, SignalSet shape, dask.compute of SyncSignal.data, fourier_coefficients"])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P), "properties")
