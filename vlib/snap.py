"""Everything an analysis of a channel computed, for bitwise comparison."""
import numpy as np

P = ["pretrig_mean", "pretrig_rms", "pulse_average", "pulse_rms", "promptness", "rise_time", "postpeak_deriv", "pretrig_deriv", "pretrig_offset", "filt_phase", "filt_phase_corr",
     "filt_value", "filt_value_dc", "filt_value_phc", "filt_value_tdc", "energy", "timestamp", "peak_index", "peak_value", "min_value", "shift1", "subframecount"]
GRID = np.array([1., 300., 1000., 2900., 3000., 3001.5, 4800., 5000., 6400., 6500., 8000.])



def snap(g, ds):
    """Everything the analysis of a channel computed, as a dict of arrays."""
    s = {}
    for p in P:
        s["p_" + p] = np.array(getattr(ds, "p_" + p)[:])
    s["cuts"] = np.array(ds.cuts._mask[:])
    s["good"] = np.array(ds.good())
    for c in [x.decode() for x in g.categorical_cut_desc["name"]]:
        s["cat " + c] = np.array(ds.cuts.category_codes(c))
    s["cut fields"] = np.array([str(x) for x in g.boolean_cut_desc["name"]] + [str(x) for x in g.categorical_cut_desc["name"]])
    for a in ("average_pulse", "noise_autocorr", "noise_psd"):
        s[a] = np.array(getattr(ds, a)[:])
    s["delta_f"] = np.array([ds.noise_psd.attrs.get("delta_f", -1)])
    f = ds.filter
    if f is not None:
        for a in ("values", "nominal_peak", "variance", "predicted_v_over_dv", "dt_values", "const_values", "convolution_lags", "fmax", "f_3db", "cut_pre", "cut_post", "_filter_type", "signal_model", "dt_model"):
            v = getattr(f, a)
            s["filter " + a] = np.array(["None"]) if v is None else np.asarray(v)
    s["filter type"] = np.array([ds._filter_type])
    for name, cal in sorted(ds.calibration.items()):
        s[f"cal {name}"] = np.asarray(cal(GRID))
        s[f"cal {name} inverse"] = np.asarray(cal.energy2ph(cal(GRID[2:9])))
        s[f"cal {name} points"] = np.array([cal.cal_point_phs, cal.cal_point_energies], dtype=float)
        s[f"cal {name} names"] = np.array([str(x) for x in cal._names])
        s[f"cal {name} errors"] = np.array([np.asarray(cal._de), np.asarray(cal._dph)], dtype=float)
        s[f"cal {name} kind"] = np.array([str(cal.curvename), str(bool(cal._use_approximation)), str(cal.nonlinearity)])
        s[f"cal {name} drop error"] = np.asarray(cal.drop_one_errors()[1]) if cal.npts > 2 else np.zeros(1)
    if getattr(ds, "phaseCorrector", None) is not None:
        ph, v = np.meshgrid(np.linspace(-.7, .7, 9), GRID[1:])
        s["phase corrector"] = np.asarray(ds.phaseCorrector(ph.ravel(), v.ravel()))
        s["phase corrector names"] = np.array([ds.phaseCorrector.indicatorName, ds.phaseCorrector.uncorrectedName])
    d = ds.drift_correct_info
    s["drift info"] = np.array([f"{k}={d[k]}" for k in sorted(d)])
    for a in ("peak_samplenumber", "pretrigger_ignore_samples", "cut_pre", "cut_post"):
        s["ds " + a] = np.array([str(getattr(ds, a))])
    if ds.saved_auto_cuts is None:
        s["auto cuts"] = np.array(["None"])
    else:
        prm = ds.saved_auto_cuts.cuts_prm
        s["auto cuts"] = np.array([str(None if x is None else float(x)) for k in ("peak_time_ms", "rise_time_ms", "pretrigger_rms", "postpeak_deriv") for x in prm[k]]
                                  + [repr(float(getattr(ds.saved_auto_cuts, k))) for k in ("_pretrig_rms_median", "_pretrig_rms_sigma")])
    s["status"] = np.array([str(ds.channum in g.good_channels), str(g.why_chan_bad.get(ds.channum) if isinstance(g.why_chan_bad, dict) else None)])
    return s


def compare(ctx, a, b, mech, what):
    ka, kb = set(a), set(b)
    ctx.check(ka == kb, mech + " present", f"{what}: only in one of them: {sorted(ka ^ kb)[:5]}")
    for k in sorted(ka & kb):
        x, y = a[k], b[k]
        same = x.shape == y.shape and (np.array_equal(x, y) if x.dtype.kind in "USO" else np.array_equal(x, y, equal_nan=x.dtype.kind == "f"))
        if not same:
            if x.shape == y.shape:
                w = np.flatnonzero(np.ravel(x != y))
                det = f"{len(w)} of {x.size} entries differ, first #{w[0]}: {np.ravel(x)[w[0]]} != {np.ravel(y)[w[0]]}" if len(w) else "nan pattern"
            else:
                det = f"shape {x.shape} != {y.shape}"
            mk = "cal" if k.startswith("cal") else k.replace("p_", "")
            ctx.fail(mech + " " + mk, f"{what}: {k}: {det}")
        ctx.count("quantities compared")
        if x.dtype.kind in "USO" or np.any(x != 0):
            ctx.nontrivial(k, x.tobytes())


def compare_all(ctx, a, b, mech, what):
    ctx.check(set(a) == set(b), mech + " channels", f"{what}: channels {sorted(a)} != {sorted(b)}")
    for c in a:
        compare(ctx, a[c], b[c], mech, f"{what}, chan {c}")
