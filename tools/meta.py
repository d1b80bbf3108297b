"""technique and level_note of each check."""
T = "runtime monitoring: "
ENV = " Assurance: no violation on the executions observed (seeded random and hostile inputs, counts in the evidence file); nothing is proved."
META = {
    "C01": (T + "real reader on generated and truncated LJH files vs an independent byte-level writer/parser as oracle",
            "Every observation compares the reader with an independently encoded file, at random geometry and at every byte cut of small files." + ENV),
    "C02": (T + "LJH copy/append/truncate/merge/modify tools run on generated files; an independent parser compares every byte and record afterwards",
            "Every observation decodes inputs and outputs with an independent parser, incl. self-overwrite and incompatible inputs." + ENV),
    "C03": (T + "filename helpers and TESGroup construction on generated directory trees vs a regular-expression-free reference",
            "Generated names, directories with hostile names, random channel subsets and orders." + ENV),
    "C04": (T + "OFF conversion, OffFile and PulseModel on generated data vs float64 linear-algebra and byte-level references",
            "Every coefficient, header byte and record is compared with an independent computation." + ENV),
    "C05": (T + "model-based histories of cut operations on real TESGroups, every field and combination compared with a set model after each step",
            "Random histories incl. bit reuse, capacity, reopening, legacy formats; masks compared exactly." + ENV),
    "C06": (T + "summaries of generated pulse files recomputed record by record in float64 from their definitions; metamorphic segment/subset/complement runs",
            "Each implementation is compared with its own definition on ordinary and hostile records." + ENV),
}
META["C07"] = (T + "AddressSanitizer+UBSan builds of the four Cython extensions, differentially run against bounds-checked twins (other initial values of locals) on hostile arrays; inputs compared byte for byte",
               "Sanitizer aborts, twin disagreement or a modified input is a violation; no allocation inside numpy/HDF5 is instrumented." + ENV)
META["C08"] = (T + "real FilterMaker on generated templates, noise covariances, cuts and bands vs dense linear algebra; metamorphic rescaling; filters made by TESGroups from files",
               "Every filter's values, responses, variance and resolving power are compared with an independent computation, plus perturbed competitors for optimality." + ENV)
META["C09"] = (T + "real filtering of generated LJH files (ordinary and hostile records, any filter, segmentation, implementation) recomputed record by record in float64; metamorphic files",
               "Every stored value and phase is compared with an independent quadratic fit or inner product within its computed rounding error." + ENV)
META["C10"] = (T + "random analysis plans on generated LJH files, run straight, closed/reopened at random steps, repeated, forced, fresh, and with other channel sets; bitwise comparison of every stored result",
               "All stored arrays, cuts, filters, calibrations, correction curves and statuses are compared bit for bit; hand-marked values detect recomputation." + ENV)
META["C11"] = (T + "random histories of marking channels bad/good and of failing analysis steps (injected exceptions, pathological data, interrupts) on TESGroups and OFF ChannelGroups vs a set model; healthy channels compared bit for bit with runs without the bad one",
               "Status sets, reasons, iteration orders and data compared after each step; failures injected per channel; summed histograms recomputed." + ENV)
META["C16"] = (T + "random experiment-state logs and record times applied at once, in increments, through refreshed ChannelGroups on growing files, and through TESGroup categories; a linear scan of the log is the oracle",
               "Every record's state is compared after every refresh; growth schedules include late labels, torn OFF records and repeated refreshes." + ENV)
META["C12"] = (T + "calibration curves of random points, curve types and histories evaluated on dense grids; an independently built natural spline in each curve type's coordinates is the oracle; inverses, slopes and element-wise evaluation checked",
               "Exact curves to 1e-7 everywhere, inverses where the oracle curve is monotone, approximate curves through their chi-squared and uncertainties." + ENV)
META["C13"] = (T + "random histories of editing, copying, saving and reloading calibrations compared with a list model after every step, refusals included",
               "Points, names, uncertainties, settings and curve are compared after every operation." + ENV)
META["C24"] = (T + "splines on random knots and random expression trees vs scipy splines, Taylor arithmetic, saddle-point Gaussian-process equations and optimality conditions; scalars, lists and arrays of all shapes",
               "Values and derivatives 0-4 of every object compared with an independent computation." + ENV)
META["C25"] = (T + "random graphs of OFF-channel recipes and cuts, evaluated through every kind of selection, saved, reloaded, exported and learned; a row-by-row evaluation of the same functions on the generated records is the oracle",
               "Every selected value, cut, histogram and exported dataset is compared with the oracle." + ENV)
META["C17"] = (T + "random pulse and trigger times given to the compiled and Python searches, to TESGroups (binary and HDF5 trigger files) and to OFF ChannelGroups; an exhaustive search over all triggers is the oracle",
               "Every delay, its batched recomputation, its value after reopening and its value in seconds are compared exactly." + ENV)
META["C19"] = (T + "simulated baselines with injected whole-quantum steps and wild cut records, corrected as arrays and through TESGroups; the injected truth is the oracle",
               "Integer quotients, recovery of the baseline up to one offset, unchanged input, other columns and reopened values are checked." + ENV)
META["C18"] = (T + "simulated lines with injected gain, phase and time dependences, corrected as arrays and through TESGroups with cuts, categories and reopened files; formulas re-evaluated from the stored parameters, injected truth, sharpness before/after and permuted records are the oracles",
               "Every corrected value (good and cut records, held-out records) is compared with an independent evaluation of the stored parameters." + ENV)
META["C20"] = (T + "power spectra, overlapping and rebinned spectra and autocorrelations of generated data, and noise results of generated LJH noise files through NoiseRecords and TESGroups; direct DFT sums and lagged products are the oracle",
               "Every spectrum and autocorrelation value is compared, contaminated records are altered, copies and inputs are re-checked." + ENV)
META["C21"] = (T + "Toeplitz systems (symmetric and not) and ARMA whiteners of generated sizes, models, dtypes and layouts; explicitly filled dense matrices and scipy.linalg are the oracle, and noise of the exact model covariance",
               "Every solution, product, whitening operator and inverse is compared, inputs compared byte for byte." + ENV)
META["C22"] = (T + "samples with ties, clusters, heavy tails, all dtypes and containers given to every estimator; O(n^2) definitions, step-by-step iterations and pair counting are the oracles; shuffled, shifted and rescaled twins",
               "Every estimate is compared with its definition, inputs re-checked, in-place sorts compared as multisets." + ENV)
META["C23"] = (T + "samples with ties, clusters and outliers given to every entropy function in every mode; Gauss-Legendre integration of the definitions between kernel nodes is the oracle; shuffled, shifted, mirrored and rescaled twins",
               "Every entropy, cross entropy and divergence is compared with its integral." + ENV)
META["C14"] = (T + "densities, broadenings, samples and names of all registered and many generated lines, with hostile resolutions; sums of scipy Voigt profiles, their integrals and distribution functions are the oracle",
               "Every density, share, peak and name is recomputed from the components; samples are compared with the exact distribution function." + ENV)
META["C15"] = (T + "line models evaluated over generated gains, binnings, tails and efficiencies vs scipy Voigt profiles and their numerical convolution with the tails; Poisson data drawn and fitted, refitted with other labels, gain and types, and as composites",
               "Every bin is compared; every fit is compared in likelihood with the truth and with moved parameters, and in parameters with the truth." + ENV)
META["C26"] = (T + "generated pulse-height samples, peak lists and line sets; direct summation of the smoothed spectrum, exhaustive search over all subsets, recomputed ranges and simulated spectra with known calibrations are the oracles",
               "Every local maximum, assignment, range and final calibration is compared." + ENV)
META["C29"] = (T + "average pulses, plots of traces, summaries, noise, filters and rates, report pages, tables, exports and line fits made from synthetic groups with known traces, cuts, bad and empty channels; brute-force selections of the raw records and stored values are the oracle for everything drawn, written or fitted",
               "Every plotted curve, histogram, page, table and fitted spectrum is read back and compared; other axes are made current to see plots drawn on wrong ones." + ENV)
META["C30"] = (T + "neighbor lists, crosstalk flags and vetoes computed for synthetic channels with known arrival times (bursts, coincidences, sparse) on random maps; brute force over all pairs of pulses and positions is the oracle",
               "Every list entry, flag and vetoed moment away from the stated time resolution is compared, over histories of recomputation with other maps, windows and distances." + ENV)
META["C31"] = (T + "numerical helpers run on generated signals, histograms and correlated noise; direct least-squares fits, exact frequency-domain sums, counted bins and dense linear algebra are the oracle",
               "Every returned or drawn number is compared with an independent computation; random factorizations are judged by their defining properties." + ENV)
META["C28"] = (T + "calibration plans, alignment, residual cuts, quality checks and spectrum fits run on synthetic OFF files whose pulses have known energies, gains and decoys; the true energies and brute-force selections are the oracle",
               "Energies, plans, marked channels, cut pulses and every plotted or fitted histogram are compared; decoy pulses in other states and cuts would shift results." + ENV)
META["C27"] = (T + "films, premade filters, stacks of stacks and the instrument models built from generated exact, integer, array and uncertain inputs and evaluated at generated energies; exponentials of xraydb's elemental attenuation and hand-propagated uncertainties are the oracle",
               "Every efficiency and uncertainty is compared; complements, splits, orders and nestings are built as twins." + ENV)
META["C32"] = (T + "generated level dumps converted and queried, and lines and models made of levels evaluated and fitted; the rows written, sums of scipy Voigt profiles and the parameters drawn from are the oracle",
               "Every level, query, line and model bin is compared; a made-up level file stands in for the one that the repository leaves out." + ENV)
META["C33"] = (T + "the programs run with random arguments on synthetic channels; the library's steps run by hand with the same choices, brute-force projections and raw records are the oracle",
               "Every file, stored item, record and curve is compared; existing outputs are planted to see them kept." + ENV)
