"""Hand-written parts of DESIGN.md."""
INTRO = """
# Runtime monitoring of usnistgov/mass

(Generated by `tools/design.py` from the properties, the monitors themselves and hand-written notes, so it stays in step with the code.)

## What is studied
`mass` turns recorded microcalorimeter pulses (LJH files), or pulses already projected on a model (OFF files), into calibrated X-ray
energy spectra. The broad guarantees are: files are read and rewritten faithfully (C01-C04); cuts mean what they say (C05); pulse
summaries, optimal filters and filtered values follow their definitions (C06-C09) and the compiled kernels are memory-safe (C07);
the analysis is reproducible, restartable and one channel's trouble stays its own (C10, C11); calibrations, lines and fits are
self-consistent and recover the truth (C12-C15, C26); times and states are assigned exactly (C16, C17); corrections do what they say (C18,
C19); the numerical helpers equal their definitions (C20-C24, C31); the OFF workflow mirrors all this (C25, C28); efficiencies are physical
(C27), the atomic levels behind highly-charged-ion lines are the dump's (C32), the command-line programs do what their arguments say (C33); and what is drawn, tabulated and exported shows the data selected (C29, C30).

## How a check works
`run_check.py <ID>` copies the working tree's `mass` package and `bin` to a scratch folder under /tmp, compiles the four Cython
extensions there (from that tree's .pyx files, never from stale `.so` files), and starts up to 8 worker processes that import the copy.
Workers run the *monitors* of the property (functions in `checks/<id>.py`) on seeded cases: each case generates a workload (data files,
histories of API calls, numeric inputs), runs the real code and lets an oracle that does not use `mass` judge what was observed.
Every case is a function of (VERIF_SEED, monitor, index), so a violation's replay file reruns it: `run_check.py ID --replay FILE`.

Verdicts: 0 held; 1 violated (VIOLATION line; also for a crash of the interpreter, an exception out of the code under test, or a case that
hangs twice when run alone for 150 s where it normally takes well under a second); 2 harness or build error; 3 inconclusive (some
monitor observed nothing). Evidence files record cases, observations, distinct non-trivial observations and per-monitor counters.

Only public behaviour is observed (return values, attributes, files, HDF5 contents, matplotlib artists, sanitizer reports), so
refactorings are invisible. No hooks were needed in /repo. `known_findings.json` lists repaired defects (suppress nothing) and
recorded ones (matched by property + mechanism name + monitor, never by random values).

Sanitizers: C07 builds the four extensions with AddressSanitizer and UBSan, and twins with bounds checks on (and other initial values of
locals), and runs them differentially; the remaining code is Python, where the monitors are oracles over values, histories and files.

Why this reaches what the tests cannot: the properties quantify over inputs, configurations, histories, growth schedules and crash points.
The tests sample a handful; the monitors generate thousands per run from generators that include the hostile corners (empty, one,
equal, unsorted, huge, negative, NaN, unicode, truncated, reopened, inverted, repeated), and judge each by an oracle, not by a
recorded answer. What remains unproved: everything not generated. The level is therefore "exploration" throughout.

Costs: every quick check takes 5-60 s on 8 cores, a thorough one 1-10 minutes.
"""
NOTES = {
    "C01": ["Incomplete headers must be refused, incomplete last records ignored; both are cut at every byte of small files. Continuous-noise flags and VirtualFile are not covered (no reader of the latter is maintained)."],
    "C02": ["`ljh_truncate` at a time equal to a record's: the code keeps it although the docs say 'earlier than'; equality is not judged."],
    "C05": ["Edges of `CutsHDF5.cut_parameter` ranges that fall exactly on a value are judged by the documented open/closed rules."],
    "C06": ["The statement was weakened: the compiled and numpy implementations differ by definition (peak search range, postpeak derivative), so each is compared with its own definition and both with each other only where they must agree."],
    "C07": ["Allocation inside numpy and HDF5 is not instrumented. The extensions are built with clang/gcc sanitizers from the tree's .pyx; leaks of the interpreter are not counted."],
    "C09": ["Pretrigger means are stored as float32, which bounds the tolerance for subtracting them."],
    "C10": ["BracketError and IndexError from entropy minimisation on poor data are deterministic failures: they must then recur identically.",
            "`redo` was added after a probe kept stale attributes of a first analysis; the comparison is with a fresh file given the second choices only."],
    "C11": ["'Healthy' channels may legitimately fail a step on their own data; they must do so the same way alone. StopIteration as injected exception was dropped (generators turn it into RuntimeError)."],
    "C12": ["A false alarm (negative pulse heights extrapolated by log-type curves) was a generator artefact and was removed."],
    "C13": ["Points of equal energy and pulse height are not generated (which one a removal hits is undefined); LinAlgError of the GPR curve on degenerate points is a refusal, not a wrong answer."],
    "C14": ["Lines of highly charged ions are C32's."],
    "C15": ["Fits start near the truth: the property is about the optimum's consistency and recovery, not the optimiser's basin. Bins are fine enough for the fit's own validation."],
    "C16": ["Time is in ns everywhere; a record at exactly the state's start time belongs to the new state."],
    "C18": ["Statement narrowed: phase correction's spline is only judged to reduce the injected dependence, and to be the function its stored nodes define."],
    "C19": ["Statement narrowed: recovery is only promised up to one overall offset and for steps above the noise."],
    "C20": ["One-sided spectra double the first and last bins by convention; float32 results need tolerance; autocorrelation of continuous data comes in chunks of 15x the lags. VirtualFile is not covered."],
    "C21": ["An ARMA whitener whitens only after its transient; only the part after it is judged white, while the operators themselves are compared exactly."],
    "C22": ["shorth is documented as the half, the tests define n//2+1 values; the tests' meaning is used. Bisquare means with almost no weight are skipped."],
    "C23": ["The exact cross entropy uses a top-hat q with a floor, as documented."],
    "C24": ["Whether 'simplified' symbolic functions may have larger domains than the original is not judged."],
    "C26": ["Local maxima that depend on FFT rounding (plateaus at 1e-12 of the maximum) are not judged; the order of the auto-calibration's list of bin sizes is ambiguous."],
    "C27": ["Uncertainties default to 100% when not given, as documented; two components of the same name replace each other."],
    "C28": ["Alignment is heuristic (fastdtw and scaling by medians): judged for three clear lines and gains within 2%. Far Lorentzian wings and bins above 0.6 eV are not judged."],
    "C29": ["Noise of channels marked bad before it was computed is not drawn; values constant to rounding cannot be binned by matplotlib and are not generated."],
    "C30": ["Edges of vetoes are rounded to samples: judged beyond 1.6 ms of an edge. Channels missing in a neighbor map are marked bad (kept)."],
    "C31": ["Ends of smoothed data are only judged for constants; the low-pass has float32 tolerance."],
    "C33": ["make_projectors' `--noise_weight_basis` can only be true (the other is not implemented, in the library either)."],
    "C32": ["hci_lines cannot be imported in the pinned tree, because nist_asd_2023.pickle is not part of it; the check writes a made-up one (simple formulas) into its scratch copy. The rounding of physical constants is not judged (1e-7). Levels whose names are not three words cannot be asked for by their parts."],
}
OUTRO = """
## What is not covered
- `fit_spectral_line` (imports a removed module), `channel_group_hdf5_only`, `FakeDataGenerator`, `VirtualFile`,
  `FilterTimeCorrection` and everything in `nonstandard`: unmaintained or not importable.
- OFF `linefit(params_fixed/holdvals)` are ignored by the code; `PulseModel`'s `extra_n_basis_5lag` uses its projectors in an undocumented way. Left alone.
- Interactive figures beyond the artists they contain; speed; memory use.
- Concurrency: the library is single-threaded; the concurrent writer of a live data file is modelled by growth schedules (C04, C16) with torn records.

## Suspected defects seen but left
`why_bad` texts above 64 kB cannot be stored as attributes; `RestoreTESGroup` needs a noise file; `time_drift_correct_info` is not stored; `MicrocalDataSet.copy`
and `TESGroup.copy` crash; `load_aux_file` (float shape); `_generate_hdf5_filename` splits at the first `_chan`;
a group's `qualityCheckLinefit` with no results at all;
`compare_calibrations` reads attributes that do not exist and plots nothing; `plot_count_rate` needs a run longer than its bin; `plot_multipage` needs a good channel
and ImageMagick; `_find_peaks_heuristic` takes the lowest peaks first though its comment says highest; `PhaseCorrector.correct` needs floating-point heights;
`calibrationPlanAddPoint` ignores `energy=` for names among the spectra; the plot label of an LJH `linefit` names `binsize` even when `bin_edges` were given.
None breaks a claimed statement as written; each was judged too remote or too ambiguous for a repair.

## How the machinery was tested
Every monitor was run against planted bugs (above), against mutants of the modules it watches, with several seeds on both tiers on the clean tree, and
(by `vcheck`) against behaviour-preserving edits. A monitor that missed a probe was strengthened when the change broke the statement; otherwise the probe is remarked as equivalent.
"""
