# Property definitions, part B.
from props_a import P, prop

prop("C12", "Energy calibration curves hit their anchors and are invertible",
     "For any monotone set of calibration points and any curve type, the calibration maps each anchor pulse height to its energy (exactly for interpolating curves, "
     "consistent with the uncertainties for approximating ones) and energy-to-pulse-height is the inverse of pulse-height-to-energy across the calibrated range. "
     "The reported slope is the derivative of the curve, scalar and array arguments agree element by element, and the order in which points were entered is irrelevant. Every kind of plot shows that curve, its points, their errors and its uncertainty band, in the coordinates asked for and on the axis given.",
     ["inputs", "configurations"],
     "All point sets (count, spacing, gain shape, uncertainties), curve types, zero-anchoring settings and query values, scalar or array of any length.",
     "Tests evaluate a few hand-picked gain curves; inversion and monotonic behaviour are claims over continuous ranges and all point sets.",
     ["mass/calibration/energy_calibration.py", "mass/mathstat/interpolate.py"],
     [("curve construction", "energy_calibration.py: EnergyCalibration._update_converters, _update_exactcurves, _update_approximators"),
      ("evaluation", "energy_calibration.py: ph2energy, energy2ph, ph2dedph, energy2dedph, ph2uncertainty")],
     ["ph2energy, energy2ph, ph2dedph, energy2dedph, energy2uncertainty"])

prop("C13", "Calibration points obey list semantics through any edit, copy or save",
     "After any sequence of adding, replacing and removing calibration points, the calibration holds exactly the points that the history implies, sorted consistently, with pulse heights, energies, uncertainties and names "
     "still belonging together; a refused operation changes nothing, and points at a pulse height or energy that is already taken (unless they replace that point) are refused. A copy is independent of its original, and a calibration written to HDF5 and read back gives the same points, settings and curve.",
     ["histories", "inputs"],
     "All add/remove/re-add/copy/save/load sequences with named, numeric and near-coincident energies.",
     "Tests add a few points in order and remove one; parallel arrays get out of step only in particular histories.",
     ["mass/calibration/energy_calibration.py"],
     [("point editing", "energy_calibration.py: add_cal_point, remove_cal_point_name/prefix/energy, __call__ caches"),
      ("persistence", "energy_calibration.py: copy, save_to_hdf5, load_from_hdf5")],
     ["cal_point_phs/energies/names, npts, ph2energy values, raised exceptions"],
     state=[("parallel point arrays", "pulse heights, energies, uncertainties, names", "EnergyCalibration._ph/_energies/_dph/_de/_names")])

prop("C14", "Every fluorescence line is a normalised, self-consistent spectrum",
     "Every spectral line's probability density is non-negative, integrates to one, equals the sum of its components, and is the density of the (positive) random energies the line generates, which are reproducible from a seeded generator. Broadening by an instrument "
     "resolution is a convolution with a Gaussian of that FWHM; every registered line's reported peak energy is where its density is highest and agrees with its nominal energy within half its narrowest width, and its component shares match its reference amplitudes. "
     "Plots of a line, of its components and of its reference show those densities. A line can be found under its registry name, by element and transition, and in the reference tables of energies under each of its names and nicknames.",
     ["inputs", "configurations"],
     "All registered lines, all energies, all instrumental resolutions and all sample sizes and seeds.",
     "Tests check a few lines at default settings; the claim covers each of the ~100 lines and a continuum of resolutions.",
     ["mass/calibration/fluorescence_lines.py", "mass/mathstat/special.py"],
     [("density", "fluorescence_lines.py: SpectralLine.__call__/components/pdf"),
      ("sampling", "fluorescence_lines.py: SpectralLine.rvs"), ("Voigt", "mass/mathstat/special.py: voigt")],
     ["SpectralLine call, rvs, peak_energy, nominal; mass.spectra mapping"])

prop("C15", "Line-fit models conserve counts and recover true parameters",
     "A spectral-line fit model's bin contents sum to the requested integral plus background for any gain, bin width, resolution and tail setting covering the line; exponential tails, with lengths in eV, only move counts toward lower (or higher) energy, "
     "and quantum efficiency multiplies the bins pointwise. Fitting data drawn from the model, from a start near the truth, maximises the Poisson likelihood and returns parameters "
     "consistent with the truth within reported uncertainties; fit results do not depend on the gain, on the labels of the model or on the type of the data, and composite models add, in either order. Bins too coarse for the narrowest line are refused, and a fit is drawn, on the axis given, with its data, its curve and its parameters. Kink fits find the exact least-squares kink for points in any order.",
     ["inputs", "configurations"],
     "All line shapes, model parameter values in their allowed ranges, binnings and count levels.",
     "Tests fit a few seeds of a few lines and never check count conservation over the parameter space.",
     ["mass/calibration/line_models.py", "mass/mathstat/fitting.py", "mass/calibration/fluorescence_lines.py"],
     [("model function", "line_models.py: GenericLineModel.spect, modelfunc_no_tails/has_tails, _smear_exponential_tail"),
      ("likelihood", "line_models.py: MLEModel._residual, CompositeMLEModel")],
     ["model.eval, model.fit results", "mass.mathstat.fitting functions"])

prop("C16", "Each record is assigned the experiment state in force at its time",
     "Given an experiment-state log, every record belongs to the state whose interval contains its timestamp (repeated states collect several intervals, excluded states and times before the first entry none), and the assignment covers each "
     "record at most once. Reading the log incrementally while it and the data grow yields the same assignment as reading everything at the end, and a forced or repeated refresh changes nothing.",
     ["histories", "inputs", "schedules"],
     "All state logs (repeated, empty, excluded, adjacent entries), all timestamp sequences and all interleavings of log growth, data growth and refresh.",
     "Tests refresh once on one data set; the incremental update depends on the growth schedule.",
     ["mass/off/experiment_state.py", "mass/off/channels.py", "mass/core/channel.py"],
     [("log parsing", "experiment_state.py: ExperimentStateFile.parse, parse_incremental"),
      ("assignment", "experiment_state.py: calculateAllStates/calcStatesDict; channels.py: Channel.statesDict; channel.py: read experiment states")],
     ["statesDict of a Channel/ExperimentStateFile; ds.good(state=...) of a TESGroup"],
     hook=None)

prop("C17", "Pulse-to-external-trigger timing is exact nearest-neighbour arithmetic",
     "For each pulse the reported delays since the last, until the next and to the nearest external trigger equal those given by exhaustive search over all triggers, including pulses before the first or after the last trigger and any number of triggers, and are "
     "independent of batching. Nothing is lost or shifted when trigger counts come from a file, and delays in seconds equal subframe delays times the subframe period.",
     ["inputs", "schedules"],
     "All sorted arrays of pulse and trigger counts (empty, one, coincident, interleaved) and file contents.",
     "Tests check one recorded trigger file; off-by-one and boundary cases depend on interleaving of the two sequences.",
     ["mass/core/analysis_algorithms.pyx", "mass/core/channel.py", "mass/core/channel_group.py", "mass/off/channels.py"],
     [("nearest arrivals", "analysis_algorithms.pyx: nearest_arrivals"),
      ("channel timing", "channel_group.py: calc_external_trigger_timing; off/channels.py: external trigger recipes")],
     ["nearest_arrivals output, ds.subframes_after_last_external_trigger etc."])

prop("C18", "Gain, phase and time corrections do what their stored parameters say",
     "Drift, time-drift and phase corrections apply the documented smooth formula with the stored parameters to every record (cut or not), the same after reopening, and leave input columns untouched; a corrected phase is the measured phase less the typical one at that pulse height. With a correct "
     "injected drift they remove it, and with no drift they change values negligibly. Drift and time-drift corrections never reduce the sharpness criterion they optimise below the uncorrected value; phase correction "
     "sharpens lines whose height depends smoothly on phase; all are invariant to record order where time is not involved. A stored phase corrector comes back as it was stored.",
     ["inputs", "configurations", "histories"],
     "All injected drift shapes, data distributions, category selections and record orders.",
     "Tests correct one data set; the guarantee is quantified over drifts and must hold for records not used in the fit.",
     ["mass/core/channel.py", "mass/core/analysis_algorithms.pyx", "mass/core/phase_correct.py", "mass/off/channels.py"],
     [("drift", "analysis_algorithms.pyx: drift_correct; channel.py: drift_correct, apply"),
      ("phase", "phase_correct.py: phase_correct, PhaseCorrector"),
      ("time drift", "analysis_algorithms.pyx: time_drift_correct")],
     ["p_filt_value_dc/phc/tdc columns, PhaseCorrector objects, drift_correct return values"])

prop("C19", "Flux-jump removal shifts values only by whole flux quanta",
     "Correcting flux jumps returns values that differ from the originals by integer multiples of the flux quantum, and undoes injected whole-quantum steps (up to one global offset) whenever the good pulses' true baseline spreads "
     "over less than a quarter of a quantum and the values span a quantum or more, whatever the values of cut pulses. Data spanning less than one quantum are left unchanged; the input and the channel's other columns are not altered.",
     ["inputs"],
     "All jump times, multiplicities, flux quanta, noise levels and record counts for each correction algorithm.",
     "Tests use one simulated sequence per algorithm.",
     ["mass/core/analysis_algorithms.pyx", "mass/core/channel.py"],
     [("correction", "analysis_algorithms.pyx: correct_flux_jumps; channel.py: MicrocalDataSet.correct_flux_jumps")],
     ["returned arrays; ds.p_pretrig_mean after ds.correct_flux_jumps"])

prop("C20", "Noise spectra and autocorrelations conserve power",
     "A computed power spectrum integrates to the mean square of the windowed data it was given, is additive over segments, scales with the square of amplitude and as the frame time requires, and its frequencies are the DFT frequencies; an autocorrelation at "
     "zero lag is the variance and agrees with the direct lagged-product sum. Noise results of a channel depend only on the noise records that pass the cuts, and white noise of known level gives that level. Plots of spectra and autocorrelations show exactly these, in the stated scale and units, on the axes given.",
     ["inputs", "configurations"],
     "All data, lengths, segmentations, windows, sample times, and cut masks.",
     "Tests compare one white-noise data set.",
     ["mass/mathstat/power_spectrum.py", "mass/core/channel.py"],
     [("spectra", "power_spectrum.py: PowerSpectrum, PowerSpectrumOverlap, computeSpectrum, autocorrelation..."),
      ("channel noise", "channel.py: NoiseRecords.compute_power_spectrum_reshape, compute_autocorrelation")],
     ["spectrum(), frequencies(), noise_autocorr, noise_psd"])

prop("C21", "Toeplitz solving and noise whitening are exact linear operators",
     "Solving with a symmetric Toeplitz system returns the vector whose product with the matrix is the right-hand side, multiplication and solution are mutually inverse, and a whitener maps noise of its stated ARMA model to unit "
     "white noise (after the start-up transient): its whitening, un-whitening and transposed operators agree with the corresponding dense matrices. Inputs are never modified.",
     ["inputs", "configurations"],
     "All positive-definite autocorrelation sequences, sizes, right-hand sides (any numeric dtype, vector or matrix) and ARMA parameters.",
     "Tests use a few sizes and noise models.",
     ["mass/mathstat/toeplitz.py", "mass/core/optimal_filtering.py"],
     [("solver", "toeplitz.py: ToeplitzSolver.mult, __call__"), ("whitener", "optimal_filtering.py: ToeplitzWhitener")],
     ["return values compared with dense scipy.linalg"])

prop("C22", "Robust statistics equal their brute-force definitions",
     "Each robust location and scale estimator (weighted high median, bi-weight and Huber locations, median absolute deviation, shorth range of n//2+1 values, Q-scale, trimean) equals its defining brute-force computation for any sample, is "
     "equivariant under shift and scale, does not depend on sample order, and leaves its input unchanged unless an in-place option was requested.",
     ["inputs"],
     "All samples: any length, ties, extreme values, weights and data types.",
     "Tests use random Gaussian samples of a few sizes; ties, tiny samples and extreme ranges are not reached.",
     ["mass/mathstat/robust.pyx"],
     [("selection algorithms", "robust.pyx: high_median, _high_median, Qscale, _choose_trial_val, shorth_range, ...")],
     ["return values compared with O(n^2) definitions"])

prop("C23", "Kernel-density entropies equal numerical integration",
     "The Laplace-kernel entropy, Kullback-Leibler divergence and cross-entropy of any samples equal direct numerical integration of their documented definitions within tolerance (the exact cross-entropy uses the documented top-hat density with a floor for the second sample, so only the "
     "approximate divergence is bound to be non-negative), are invariant to sample order and to a common shift, transform correctly under a common scale, and the approximate methods equal the renormalised integral of Laplace-kernel densities over the data range extended by 5 widths.",
     ["inputs"],
     "All sample sets (ties, single point, widely separated clusters), kernel widths and data types.",
     "Tests check two or three data sets.",
     ["mass/mathstat/entropy.pyx"],
     [("exact sums", "entropy.pyx: laplace_entropy, laplace_KL_divergence, laplace_cross_entropy")],
     ["return values compared with quadrature"])

prop("C24", "Spline and function objects interpolate and differentiate exactly",
     "Interpolating splines pass through their knots and honour end conditions, smoothing splines honour their uncertainty budget and the natural boundary, and evaluating any spline or function object at scalars or arrays agrees "
     "element by element. Derivatives of function objects and splines equal the derivative of their values, arithmetic and composition of functions equal arithmetic on their values, and evaluation never modifies its argument.",
     ["inputs"],
     "All knot sets, end conditions, extrapolation points, and expression trees of function objects.",
     "Tests check a few knots at a few points.",
     ["mass/mathstat/interpolate.py", "mass/mathstat/derivative.py"],
     [("splines", "interpolate.py: CubicSpline, NaturalBsplineBasis, SmoothingSpline, GPRSpline"),
      ("derivatives", "derivative.py: Function algebra")],
     ["callable values and derivatives"])

prop("C25", "OFF-channel recipes, cuts and selections are consistent views of the data",
     "Any requested quantity of an OFF channel equals its recipe applied to the recorded columns, whatever slice, index list, state selection or cut it is requested through: selecting then computing equals computing then selecting. "
     "Cuts combine as logical and, inverting a cut gives the complement, chained and renamed recipes resolve to the same values, and results exported to HDF5 or reloaded from saved recipes give identical values.",
     ["inputs", "histories", "configurations"],
     "All recipes and recipe chains, cut definitions, state selections, index forms and save/load points.",
     "Tests look at one data set with a few recipes.",
     ["mass/off/channels.py", "mass/off/recipe_classes.py", "mass/off/util.py"],
     [("recipes", "off/util.py: RecipeBook; recipe_classes.py"), ("selection", "off/channels.py: Channel.getAttr, getStatesIndicies, cutAdd")],
     ["Channel.getAttr, cuts, hist; RecipeBook.craft, to_file/from_file"])

prop("C26", "Peak finding and line assignment choose the best consistent match",
     "Peak finding reports every local maximum (above rounding error) of the smoothed spectrum of a data set, tallest first, and the assignment of measured peaks to known line energies is the order-preserving choice that "
     "minimises the documented objective (how far each interior peak lies, relative to its energy, from linear interpolation between its neighbours, added in quadrature) over all candidate subsets. Fit ranges built around assigned lines contain their line, end at "
     "the midpoints to neighbouring and excluded lines, and follow the approximate calibration; an automatic calibration of simulated spectra, on lines given as names or energies, returns the true energies, and its diagnostic plot shows its histograms, fits and curve.",
     ["inputs"],
     "All peak lists, line sets, background peaks and pulse-height distributions.",
     "Tests check one or two cases; optimality is over all subsets.",
     ["mass/calibration/algorithms.py"],
     [("peak finding", "algorithms.py: find_local_maxima"), ("assignment", "algorithms.py: find_opt_assignment"), ("ranges", "algorithms.py: build_fit_ranges*")],
     ["returned lists compared with exhaustive search"])

prop("C27", "Detector and filter efficiencies are physical and compose multiplicatively",
     "Every efficiency curve lies between 0 and 1 and is exp(-attenuation) of its named materials, a stack's efficiency is the product of its parts in any order or nesting, filters transmit and absorbers absorb complementary fractions of the same film, thickness adds "
     "(two layers equal one of summed thickness), premade filters and instruments are the product of their documented layers, and inputs with or without uncertainties give the same nominal value, with an uncertainty that propagates to first order.",
     ["inputs", "configurations"],
     "All materials, thicknesses, densities, fill fractions, stack nestings and energies.",
     "Tests check a few stacks at three energies.",
     ["mass/materials/efficiency_models.py", "mass/materials/uncertainties_helpers.py"],
     [("efficiencies", "efficiency_models.py: Filter, FilmSet/Film, AlFilmWithOxide, LEX_HT, EfficiencyStack.get_efficiency")],
     ["get_efficiency values and uncertainties"])

prop("C28", "OFF channels are calibrated and aligned as planned",
     "A calibration plan's points, in whatever order they are added, define a rough calibration that passes through all of them, and following the plan fits each line to the pulses of its states that pass the cut, so that the energies it gives agree with the energies the "
     "pulses had, whatever the channel's gain. Channels aligned to a similar reference channel inherit its plan at their own pulse heights. Quality checks and learned residual cuts mark exactly the channels and pulses beyond the given tolerance, and spectra that are "
     "fitted, histogrammed or plotted hold exactly the selected pulses in the requested bins; plots of one quantity against another show each state's pulses that pass the cut (or, if asked for, fail it), and everything, labels included, is drawn on the axis given.",
     ["inputs", "histories", "configurations"],
     "All plans, line sets, gains, states, cuts, tolerances and bin choices.",
     "Tests calibrate one recorded data set; energies are compared with nothing independent.",
     ["mass/off/channels.py", "mass/calibration/energy_calibration.py"],
     [("plans", "off/channels.py: CalibrationPlan, Channel.calibrateFollowingPlan"), ("alignment", "off/channels.py: dtw_same_peaks, AlignBToA, alignToReferenceChannel"), ("quality", "off/channels.py: qualityCheckLinefit, qualityCheckDropOneErrors, learnResidualStdDevCut")],
     ["calibrations, plans, marked channels, cuts, histograms and plotted curves"])

prop("C29", "The group's averages, plots, reports and fits show exactly the selected pulses",
     "Average pulses are the means of exactly the pulses selected for each channel (good ones if not stated otherwise), with the baseline and the order in which they were taken respected. Plots of traces, summaries, noise, filters, rates and per-channel report pages show, for exactly the channels and "
     "pulses asked for (good, cut, all, or a given selection; never a bad channel's unless asked), the stored values in the stated units, on the axes given; single record numbers may be of any integer type, and quantities may be named in all documented ways; a channel without good pulses does not spoil the others'. Reports, per-channel results and exported files count and list exactly the "
     "good pulses of every good channel. Spectra fitted or drawn by channel or group hold exactly the selected good pulses in the requested bins.",
     ["inputs", "histories", "configurations"],
     "All groups, cuts, bad channels, empty channels, selections, quantities and plotting options.",
     "Tests call a few of these functions on one recorded file and do not compare what they show with the data.",
     ["mass/core/channel_group.py", "mass/core/channel.py", "mass/core/utilities.py"],
     [("averages", "core/channel.py, channel_group.py: compute_average_pulse, plot_average_pulses"), ("plots", "channel_group.py: plot_summaries, plot_noise, plot_count_rate, plot_traces; channel.py: plot_summaries, plot_traces"), ("reports", "channel_group.py: report, pulse/energy exports; utilities.py: plot_summary_pages"), ("fits", "channel.py, channel_group.py: hist, linefit")],
     ["plotted curves, histograms, page files, tables, averages and fitted spectra"])

prop("C30", "Crosstalk flags and vetoes mark exactly the pulses near others in neighboring channels",
     "The neighbors of a channel are those of the map: each entry's squared distance and order (n-th nearest among the distances possible on the map) follow from the coordinates, and are recomputed from a new map when (and only when) that is asked for. A pulse is flagged as crosstalking if and only if a "
     "channel at one of the chosen neighbor orders, in any category or in the category concerned, has a pulse within the given times before or after it, however dense, coincident or numerous the pulses are; recomputed flags keep nothing of earlier ones, and bad channels are not flagged. A crosstalk veto holds at exactly the "
     "moments that lie in the windows of more than one good pulse of the group.",
     ["inputs", "schedules", "histories"],
     "All maps, arrival times, windows, neighbor orders, categories and histories of recomputation.",
     "No test computes a neighbor list, a flag or a veto.",
     ["mass/core/channel.py", "mass/core/channel_group.py"],
     [("neighbors", "core/channel.py: set_nearest_neighbors_list"), ("flags", "core/channel.py: flag_crosstalking_pulses"), ("veto", "core/channel_group.py: CrosstalkVeto")],
     ["neighbor lists, flags, veto answers"])

prop("C31", "Smoothing, filtering, factorization and drawing helpers compute and draw what they say",
     "A Savitzky-Golay filter gives at every point away from the ends the value or derivative of its window's least-squares polynomial, reproduces polynomials of its order and constants, and gives the same for lists, integers and unsigned integers as for floats. The low-pass filter keeps exactly a signal's frequency components "
     "below the cutoff, for any length. Stepped histograms are drawn at each bin's count over exactly that bin, from edges or centers, and their Poisson bands at plus and minus its root. Randomized ranges are orthonormal and hold the matrix, and randomized SVDs are SVDs of it, exact up to rounding when its rank "
     "allows. The script that prints HDF5 files lists every group, dataset and attribute.",
     ["inputs", "configurations"],
     "All signals, lengths, types, windows, orders, cutoffs, bins and matrices.",
     "Tests call none of these but through other functions; odd lengths, derivatives and unsigned data are never used.",
     ["mass/mathstat/utilities.py", "mass/core/analysis_algorithms.pyx", "bin/hdf5print"],
     [("smoothing", "mathstat/utilities.py: savitzky_golay"), ("low-pass", "core/analysis_algorithms.pyx: filter_signal_lowpass"), ("random", "mathstat/utilities.py: find_range_randomly, find_svd_randomly"), ("drawing", "mathstat/utilities.py: plot_as_stepped_hist")],
     ["arrays returned, curves drawn, lines printed"])

prop("C32", "The atomic-level database, and the highly-charged-ion lines and models made of it, hold what the levels' dump says",
     "Converting an SQL dump of levels gives a database of exactly the named levels with their energies and uncertainties, missing ones as NaN, sorted by energy within an ion, whatever the order of the table's fields, the grouping of its rows into statements and the other tables. "
     "Each query returns exactly the levels of the ion that match the configuration, term and J asked for, in order, no more than asked for, in the units asked for, and changes nothing. Lines made of levels have the levels' energies, the given widths and relative intensities, and are found by their names. "
     "Ready-made H-like, He-like and composite models are the sum of their lines at the database's separations, with one resolution and gain and only the documented free parameters, with or without tails and a linear background; fits of counts drawn from them recover the truth.",
     ["inputs", "configurations"],
     "All dumps, ions, queries, lines, models, parameters and bins.",
     "The tests of the models cannot be imported without the level file, and nothing tests the conversion.",
     ["mass/calibration/import_asd.py", "mass/calibration/hci_lines.py", "mass/calibration/hci_models.py", "mass/calibration/line_models.py"],
     [("conversion", "calibration/import_asd.py: write_asd_pickle"), ("queries", "calibration/hci_lines.py: NIST_ASD"), ("lines", "calibration/hci_lines.py: add_hci_line"), ("models", "calibration/hci_models.py: initialize_hci_composite_model")],
     ["database contents, query results, line densities, model values and parameters"])

prop("C33", "The command-line programs make_projectors and ljh2off do what their arguments say, and pulse models are drawn as they are",
     "make_projectors stores, for each of the first channels asked for that have both pulses and noise, and for no other, the model that the library's steps give with the same choices: numbers of basis vectors, pulses and ignored presamples, cuts, cutoffs, inversion. An output that exists is kept, and the program fails, unless replacing is asked for. "
     "ljh2off writes an OFF file for each of the first channels asked for that have data and a model, projected by that model, with the presamples left out that were asked for, and copies the experiment states; it writes nothing into a folder that exists unless told to. "
     "A plotted model shows exactly its projectors, basis vectors, training pulses and residuals, each under its own label.",
     ["inputs", "configurations"],
     "All sets of channels and files, and all combinations of options.",
     "One test runs one program with one set of arguments and looks at nothing it wrote.",
     ["mass/core/projectors_script.py", "mass/core/ljh2off.py", "mass/core/pulse_model.py"],
     [("make_projectors", "core/projectors_script.py: main, make_projectors"), ("ljh2off", "core/ljh2off.py: main, ljh2off_loop"), ("drawing", "core/pulse_model.py: PulseModel.plot")],
     ["files written, exit statuses, messages, curves drawn"])
