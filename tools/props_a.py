# Property definitions, part A. tools/gen.py turns these into properties.jsonl and MANIFEST.json.
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop("C01", "LJH files are read back exactly as recorded",
     "For any LJH 2.1 or 2.2 file, the reader reports exactly the header values, the number of complete records, the "
     "samples of every record, and the per-record subframe counts and times that the bytes on disk encode, in file order. "
     "This does not depend on the access pattern (single record, slice, index array, whole file, copy of the reader), on the "
     "segment size chosen for processing, or on an incomplete record left at the end of the file; inverted reading returns the "
     "bitwise complement and changes nothing else.",
     ["inputs", "configurations", "crash_points"],
     "All header variants (both versions, any record length/presamples/timebase/rows/subframe keys/client), all record contents, "
     "all byte lengths at which the file may have been cut, all segment sizes and all read patterns.",
     "The tests open half a dozen recorded files with one geometry each; file truncation points, header combinations and access "
     "patterns form an unbounded space.",
     ["mass/core/files.py"],
     [("header parse", "mass/core/files.py: read_ljh_header, LJHFile._parse_header"),
      ("record layout", "mass/core/files.py: LJHFile2_1.dtype/_parse_times, LJHFile2_2.dtype"),
      ("segmentation", "mass/core/files.py: LJHFile.set_segment_size"),
      ("inversion", "mass/core/files.py: LJHFile.alldata, __getitem__")],
     ["mass.LJHFile.open(...) attributes, read_trace, read_trace_with_timing, alldata, [..], copy"])

prop("C02", "LJH file tools conserve pulse records and leave sources alone",
     "Copying selected records, truncating by record count or by time, appending and merging LJH files produce a readable LJH file "
     "that holds exactly the requested records, in the requested order, with unchanged samples, subframe counts and timestamps and "
     "the same record length and pretrigger length as the source. Source files keep every byte, and an existing destination is "
     "replaced only when overwriting was requested.",
     ["inputs", "histories", "configurations"],
     "All source files (either version), all record selections and truncation points, and all sequences of copy/append/truncate/merge "
     "operations on the results.",
     "The tests truncate one file at a couple of fixed points and never chain operations or compare record identity on arbitrary selections.",
     ["mass/core/ljh_util.py", "mass/core/files.py", "bin/ljh_truncate", "bin/ljh_merge"],
     [("copy/append", "mass/core/ljh_util.py: ljh_copy_traces, ljh_append_traces"),
      ("truncate", "mass/core/ljh_util.py: ljh_truncate"),
      ("header", "mass/core/files.py: make_ljh_header")],
     ["bytes of the source and destination files, parsed by an independent LJH parser"])

prop("C03", "Data files are found, grouped and ordered by channel number",
     "From any path or pattern, the filename helpers report the channel number encoded in a name, the common base of a file family, "
     "exactly the set of channels that exist on disk for that family, and the list of files ordered numerically by channel with each "
     "file listed once. Restricting or excluding channels removes exactly those channels, and noise files pair with the pulse files of the "
     "same channel.",
     ["inputs", "configurations"],
     "All directory contents (channel numbers, decoy files, dotted and multi-digit names, relative/absolute paths) and all inclusion, exclusion and maximum-channel selections.",
     "Tests check a few literal names; directory contents and name shapes are unbounded.",
     ["mass/core/ljh_util.py", "mass/core/channel_group.py", "mass/off/util.py", "mass/off/channels.py"],
     [("channel parsing", "mass/core/ljh_util.py: ljh_channum, ljh_basename_channum, ljh_get_channels, ljh_get_channels_both"),
      ("sorting", "mass/core/ljh_util.py: ljh_sort_filenames_numerically, filename_glob_expand, remove_unpaired_channel_files"),
      ("off discovery", "mass/off/util.py: listOffFiles/ChannelGroup")],
     ["return values of the helpers; channel numbers of an opened TESGroup"])

prop("C04", "OFF files hold the projected records and reconstruct them",
     "Converting LJH records to OFF with a given set of projectors and basis yields one OFF record per selected LJH record, in order, carrying the same "
     "record length, presamples, subframe count and time, with coefficients equal to projectors applied to the raw record and the residual standard "
     "deviation of the record minus its model. Reading any OFF file back returns exactly the records its bytes encode "
     "(ignoring an incomplete final record), and the modelled pulse of each record equals basis times coefficients; a stored projector/basis model survives saving and loading unchanged.",
     ["inputs", "configurations", "crash_points"],
     "All LJH files, projector/basis shapes, inversion settings, record limits, ignored presamples, channel sets and OFF file lengths.",
     "The tests convert one recorded file with fixed projectors; the mapping must hold for every record, length and truncation.",
     ["mass/core/ljh2off.py", "mass/off/off.py", "mass/core/pulse_model.py"],
     [("conversion", "mass/core/ljh2off.py: ljh2off, ljh_records_to_off, ljh2off_loop"),
      ("OFF layout", "mass/off/off.py: OffFile, recordDtype, readOff..."),
      ("model storage", "mass/core/pulse_model.py: PulseModel.toHDF5/fromHDF5")],
     ["OffFile records, modeledPulse, recordXY; bytes of the OFF file"])

prop("C05", "Cut flags follow the documented set algebra through any history",
     "After any sequence of registering or unregistering cut fields, cutting, clearing, and assigning categories, each record's good/bad status for every "
     "combination of named fields and category labels equals what a plain set model of that history predicts; operations on one field or "
     "category never disturb another. The good and bad masks are complementary, and the same flags and field definitions are seen after the file is closed and reopened. Cuts by parameter ranges, auto_cuts and smart_cuts flag exactly the records outside "
     "the limits stated or computed, and a forced recomputation replaces the earlier outcome.",
     ["histories", "inputs"],
     "All operation sequences over up to 32 boolean bits and several categorical fields, all record masks and all query combinations.",
     "The tests exercise short scripted sequences; interference between bit fields appears only in particular register/unregister/cut histories.",
     ["mass/core/cut.py", "mass/core/channel.py", "mass/core/channel_group.py"],
     [("bit allocation", "mass/core/cut.py: CutFieldMixin.register_boolean_cut_fields/register_categorical_cut_field/unregister_*"),
      ("flag updates", "mass/core/cut.py: Cuts.cut, clear_cut, cut_categorical, cut_parameter"),
      ("queries", "mass/core/cut.py: Cuts.good, bad, category_mask, select_category, cut_mask")],
     ["ds.good/bad/category_codes/cuts.* through a TESGroup", "reopened HDF5 file"],
     state=[("cut bits", "one 32-bit word per record", "mass/core/cut.py Cuts._mask"),
            ("field tables", "bit number, name and mask of each field", "HDF5 attributes cut_boolean_field_desc etc.")])

prop("C06", "Pulse summary quantities equal their definitions for every record",
     "For every pulse record the stored pretrigger mean and RMS, pulse mean and RMS, peak value and index, minimum value, rise time, post-peak derivative, "
     "promptness, subframe count and timestamp equal what their documented definitions give on that record alone. They do not "
     "depend on how many records share the file or on the processing segment size; the two available implementations agree where their definitions agree "
     "(pretrigger mean and RMS, minimum, post-peak derivative, times), and inverted data give the summary of the complemented record.",
     ["inputs", "configurations"],
     "All record contents and lengths, presample counts, segment sizes, inversion settings and record counts.",
     "Tests compare a handful of recorded files against stored numbers; segment boundaries, extreme sample values and odd geometries are not sampled.",
     ["mass/core/cython_channel.pyx", "mass/core/channel.py", "mass/core/analysis_algorithms.pyx"],
     [("cython summary", "mass/core/cython_channel.pyx: summarize_data_cython"),
      ("python summary", "mass/core/channel.py: MicrocalDataSet.summarize_data"),
      ("kernels", "mass/core/analysis_algorithms.pyx: estimateRiseTime, compute_max_deriv")],
     ["ds.p_* arrays of a TESGroup after summarize_data"])

prop("C07", "Native kernels never touch memory outside their arrays",
     "Summarising, filtering, derivative, cross-talk, arrival-time, robust-statistics and entropy computations on any arrays and parameters their callers can supply "
     "either return a result or raise a Python exception; they never read or write outside the arrays involved, never invoke undefined behaviour, and never alter caller-supplied input arrays.",
     ["inputs", "configurations"],
     "All array lengths (including empty and shorter than any internal window), sample values, peak positions and filter lengths.",
     "Out-of-bounds reads in C extensions usually return plausible garbage, so value tests pass; only instrumented builds see them.",
     ["mass/core/cython_channel.pyx", "mass/core/analysis_algorithms.pyx", "mass/mathstat/robust.pyx", "mass/mathstat/entropy.pyx"],
     [("unchecked indexing", "the boundscheck(False)/wraparound(False) kernels in the four .pyx files")],
     ["AddressSanitizer/UBSan reports from extensions rebuilt with instrumentation and bounds checking; byte comparison of inputs"])

prop("C08", "Optimal filters are unbiased, normalised and predict their own resolution",
     "Every optimal filter built from a pulse template and a noise description has unit (documented) response to the template, and, where it is "
     "documented to be insensitive to a constant baseline (or an exponential tail or the template derivative), zero response to it. "
     "Its reported noise variance equals the filter's quadratic form with the noise autocorrelation, its predicted resolving power follows from that variance, no other filter obeying the same constraints "
     "does better, and cut samples carry zero weight. Filters scale correctly when signal or noise is rescaled.",
     ["inputs", "configurations"],
     "All template shapes, noise autocorrelations/spectra, record lengths, presamples, sample-cut settings and filter kinds.",
     "The tests check a couple of template/noise pairs; optimality and unbiasedness are universally quantified over templates and noise.",
     ["mass/core/optimal_filtering.py", "mass/mathstat/toeplitz.py"],
     [("filter design", "mass/core/optimal_filtering.py: FilterMaker.compute_5lag/compute_fourier/compute_ats/..., Filter classes"),
      ("noise solve", "mass/core/optimal_filtering.py: bracketR; mass/mathstat/toeplitz.py ToeplitzSolver")],
     ["filter values, variance, predicted_v_over_dv of the returned Filter"])

prop("C09", "Filtered pulse heights and phases equal the filter definition record by record",
     "The filtered value and phase stored for each record equal the peak of the quadratic fitted to the five lagged inner products of the filter with that record (or the "
     "arrival-time-shift inner products), independent of implementation choice, segment size, record count and position in the file. Adding a constant to a record leaves its "
     "filtered value unchanged for a constant-insensitive filter, and scaling a baseline-free record scales it; results are stored for every record, good or cut. "
     "Five-lag recipes of OFF data give the value and phase of the record that the stored coefficients stand for.",
     ["inputs", "configurations"],
     "All records, filters of any lag count, segment sizes, inversion settings and implementation choices.",
     "Tests compare two implementations on single files; boundary records of segments and unusual peaks are not sampled.",
     ["mass/core/channel.py", "mass/core/analysis_algorithms.pyx", "mass/off/fivelag.py"],
     [("5-lag", "mass/core/analysis_algorithms.pyx: filter_data_5lag_cython; mass/core/channel.py: _filter_data_nocython"),
      ("ATS", "mass/core/channel.py: _filter_data_segment_ats")],
     ["ds.p_filt_value, ds.p_filt_phase"])

prop("C10", "Stored analysis results are reproducible, reusable and survive reopening",
     "Closing and reopening an analysis reproduces every computed quantity, cut, filter, noise result, calibration and channel status exactly, without recomputing. Repeating an analysis step "
     "without forcing leaves results unchanged; forcing it, or running it in a fresh analysis of the same data, gives the same results; "
     "results of one channel never depend on which other channels were opened or in which order.",
     ["histories", "configurations", "crash_points"],
     "All orders of analysis steps, close/reopen points, forced and unforced repetitions and channel subsets.",
     "Tests run a single standard analysis order; the interplay of cached HDF5 results with reopening is history dependent.",
     ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/pulse_model.py", "mass/calibration/energy_calibration.py"],
     [("HDF5 caching", "mass/core/channel.py: MicrocalDataSet.__setup_vectors, _compute_*; channel_group.py TESGroup"),
      ("skip if done", "forceNew handling throughout channel.py")],
     ["ds.p_* arrays, ds.filter, ds.noise_*, ds.calibration of the reopened TESGroup"])

prop("C11", "One bad channel never affects the others, and counts are conserved",
     "A step that fails on a channel marks that channel bad with a reason and leaves every other channel with exactly the results it would have had alone; iteration visits precisely the good channels, "
     "in order, and marking good or bad is reversible and persistent. Histograms of a channel or a group count every selected event in range exactly once, and the group histogram is the sum over its good channels.",
     ["fault_sequences", "histories", "inputs"],
     "All subsets of failing channels and failing steps, all mark-good/mark-bad histories, and all bin choices and event values.",
     "Tests fail at most one channel at one step and histogram one data set.",
     ["mass/core/channel_group.py", "mass/core/channel.py", "mass/off/channels.py"],
     [("isolation", "mass/core/channel_group.py: _add_group_loop / TESGroup.set_chan_bad/set_chan_good"),
      ("histograms", "MicrocalDataSet.hist, TESGroup.hists / off Channel.hist, ChannelGroup.hist")],
     ["TESGroup.good_channels, why_chan_bad, ds.p_*; hist return values"])
