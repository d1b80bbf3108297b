"""C33: the command-line programs that make models and convert files do what their arguments say."""
import contextlib
import io
import os
import sys

import h5py
import numpy as np

from vlib import group, ljh
from vlib.core import monitor
from vlib.offparse import parse_off, random_model

BUILD = "fast"
RULE = ("Each case writes LJH pulse and noise files of some channels, runs make_projectors or ljh2off with random arguments as its main program would, and compares the files written with the library's own steps run by hand with the same choices, "
        "with brute-force projections and with the raw records; or plots a model and reads the curves back. Non-trivial = several channels, or an option other than its default.")
ASSUMPTIONS = ["the programs run in the check's process, with sys.argv replaced", "the library steps that the programs run are judged by C04-C10; here only that they are run with the choices given"]


def run(main, *argv):
    """Output and exit status of a main program."""
    out, keep = io.StringIO(), sys.argv
    sys.argv = [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main()
        return out.getvalue(), None
    except SystemExit as e:
        return out.getvalue(), e
    finally:
        sys.argv = keep


@monitor(10, 100)
def projectors(ctx):
    """make_projectors makes the model of every channel that has pulses and noise with the options given."""
    import logging
    import mass
    from mass.core import projectors_script
    logging.getLogger("mass").setLevel(logging.ERROR)     # (it makes itself verbose when imported)
    rng = ctx.rng
    inv = bool(rng.random() < .3)
    pool = [1, 2, 3, 10, 11, 101]
    chans = sorted(int(c) for c in rng.choice(pool, int(rng.integers(1, 4)), replace=False))
    ns, npre = int(rng.integers(60, 140)), int(rng.integers(18, 30))
    f = group.make_files(ctx, chans=chans, n=int(rng.integers(70, 120)), nnoise=40, ns=ns, npre=npre, invert=inv, td=15)
    quiet = [c for c in chans[1:] if rng.random() < .3]      # no noise file
    for c in quiet:
        os.remove(f["noise"][chans.index(c)])
    both = [c for c in chans if c not in quiet]
    out = os.path.join(ctx.tmp, "made.hdf5") if rng.random() < .7 else None
    mass_path = os.path.join(ctx.tmp, "byproduct.hdf5")
    argv = ["make_projectors", f["pulse"][int(rng.integers(len(chans)))], f["noise"][0], "--mass_hdf5_path", mass_path, "--mass_hdf5_noise_path", mass_path + ".noise"]
    opt = {}
    if out:
        argv += [str(rng.choice(["-o", "--output_path"])), out]
    out = out or os.path.join(ctx.tmp, "run_model.hdf5")
    if inv:
        argv += [str(rng.choice(["-i", "--invert_data"]))]
    for name, val in (("n_basis", int(rng.integers(3, 8))), ("max_channels", int(rng.integers(1, 3))), ("maximum_n_pulses", int(rng.integers(20, 60))), ("n_ignore_presamples", int(rng.integers(0, 9))),
                      ("n_sigma_pt_rms", float(rng.choice([3., 50.]))), ("n_sigma_max_deriv", float(rng.choice([3., 30.]))), ("f_3db_ats", float(rng.uniform(4e3, 2e4))), ("f_3db_5lag", float(rng.uniform(4e3, 2e4)))):
        if rng.random() < .4:
            opt[name] = val
            argv += [{"n_basis": "-n", "max_channels": "-m"}.get(name, "--" + name) if rng.random() < .5 else "--" + name, val]
    extra = 0
    nb = opt.get("n_basis", 5)
    if nb > 3 and rng.random() < .3:
        extra = opt["extra_n_basis_5lag"] = 1
        argv += ["--extra_n_basis_5lag", 1]
    simple = rng.random() < .4
    if simple:
        argv += ["--dont_optimize_dp_dt"]
    silent = rng.random() < .3
    if silent:
        argv += ["--silent"]
    ctx.case = dict(channels=chans, without_noise=quiet, options=opt, inverted=inv, simple=simple)
    # an output that exists is kept unless asked for
    if rng.random() < .5:
        with open(out, "wb") as fp:
            fp.write(b"precious")
        txt, ex = run(projectors_script.main, *argv)
        ctx.check(ex is not None and ex.code not in {0, None}, "projectors:existing output", f"exit {ex} {txt[-200:]}")
        ctx.check(open(out, "rb").read() == b"precious", "projectors:overwritten", "the existing output was changed")
        argv += [str(rng.choice(["-r", "--replace_output"]))]
    txt, ex = run(projectors_script.main, *argv)
    if not ctx.check(ex is None and os.path.isfile(out), "projectors:no output", f"exit {ex and ex.code} {txt[-300:]}"):
        return
    want = both[:opt.get("max_channels", 99)]
    if not silent:
        ctx.check(f" of {len(want)} channels" in txt and out in txt, "projectors:message", txt[-300:])
    # the same by hand
    g = mass.TESGroup([f["pulse"][chans.index(c)] for c in want], [f["noise"][chans.index(c)] for c in want], hdf5_filename=os.path.join(ctx.tmp, "mine.hdf5"), hdf5_noisefilename=os.path.join(ctx.tmp, "mine_noise.hdf5"))
    for ds in g:
        ds.invert_data = inv
    nign = opt.get("n_ignore_presamples", 3)
    g.summarize_data(pretrigger_ignore_microsec=nign * 10.)
    g.auto_cuts(nsigma_pt_rms=opt.get("n_sigma_pt_rms", 10000), nsigma_max_deriv=opt.get("n_sigma_max_deriv", 8))
    g.compute_noise()
    g.compute_ats_filter(shift1=False, optimize_dp_dt=not simple, f_3db=opt.get("f_3db_ats"))
    with h5py.File(os.path.join(ctx.tmp, "mine_model.h5"), "w") as h:
        g.pulse_model_to_hdf5(h, n_basis=nb, maximum_n_pulses=opt.get("maximum_n_pulses", 4000), extra_n_basis_5lag=extra, f_3db_5lag=opt.get("f_3db_5lag"), _rethrow=True)
        with h5py.File(out, "r") as got:
            ctx.check(sorted(got) == sorted(h) == sorted(str(c) for c in want), "projectors:channels", f"{sorted(got)}, by hand {sorted(h)}, asked for {want}")
            for c in want:
                a, b = got[f"{c}/svdbasis"], h[f"{c}/svdbasis"]
                ctx.same(sorted(a), sorted(b), "projectors:stored")
                for k in a:
                    x, y = a[k][()], b[k][()]
                    if k in {"projectors", "basis"}:
                        ctx.check(x.shape == ((nb, ns) if k == "projectors" else (ns, nb)), "projectors:shape", f"{k} {x.shape}")
                        x, y = (x[:3], y[:3]) if k == "projectors" else (x[:, :3], y[:, :3])
                    if isinstance(x, bytes):
                        ctx.check(x == y, "projectors:" + k, f"{x} {y}")
                    else:
                        ctx.close(x, y, "projectors:" + k, rtol=1e-6, atol=1e-9 * (1e-30 + np.max(np.abs(y))))
                    ctx.count("stored_items")
                ctx.check(bool(a["was_saved_inverted"][()]) == inv, "projectors:inverted", "")
                raw = f["truth"][c]["data"].astype(float)
                tr = a["training_pulses_for_plots"][()]
                if inv:
                    raw = 65535 - raw
                rows = {r.tobytes() for r in raw}
                ctx.check(tr.shape[0] == ns and tr.shape[1] <= opt.get("maximum_n_pulses", 4000) and all(np.ascontiguousarray(q, dtype=float).tobytes() in rows for q in tr.T), "projectors:training pulses", f"{tr.shape}")
    with h5py.File(mass_path, "r") as h:
        for c in want:
            raw = f["truth"][c]["data"].astype(float)
            if inv:
                raw = 65535 - raw
            ctx.close(h[f"chan{c}/pretrig_mean"][:], raw[:, :npre - nign].mean(axis=1), "projectors:pretrigger mean", rtol=1e-5)
    group.close_group(g)
    if len(want) > 1 or opt:
        ctx.nontrivial(len(want), tuple(sorted(opt)), inv, simple)


@monitor(30, 300)
def convert(ctx):
    """ljh2off converts the channels it has models of, with the options given."""
    import mass
    from mass.core import ljh2off
    rng = ctx.rng
    ns, npre = int(rng.integers(20, 60)), int(rng.integers(12, 18))
    pool = [1, 2, 3, 10, 11, 30]
    mch, fch = (sorted(int(c) for c in rng.choice(pool, int(rng.integers(1, 5)), replace=False)) for _ in range(2))
    ctx.need(set(mch) & set(fch))
    data = {}
    for c in fch:
        data[c] = rng.integers(0, 65536, size=(int(rng.integers(1, 30)), ns)).astype(np.uint16)
        ljh.write22(os.path.join(ctx.tmp, f"aa_chan{c}.ljh"), data[c], npre=npre, channum=c)
    nb = int(rng.integers(3, 6))
    models = {}
    mp = os.path.join(ctx.tmp, "model.hdf5")
    with h5py.File(mp, "w") as h:
        for c in mch:
            P, B = models[c] = random_model(rng, nb, ns)
            mass.PulseModel(P, B, nb, rng.random((ns, 4)), 1., 1., 1., "f", 0, rng.random(ns - 4), rng.random(ns), rng.random(5), 1., rng.random(5)).toHDF5(h.create_group(str(c)), False)
    text = "# unix time in nanoseconds, state label\n1, START\n2, µA\n"
    with open(os.path.join(ctx.tmp, "aa_experiment_state.txt"), "w", encoding="utf8") as fp:
        fp.write(text)
    outd = os.path.join(ctx.tmp, "out put")
    argv = ["ljh2off", os.path.join(ctx.tmp, f"aa_chan{int(rng.choice(fch))}.ljh"), mp, outd]
    maxc, nign = 99, 0
    if rng.random() < .5:
        maxc = int(rng.integers(1, 3))
        argv += [str(rng.choice(["-m", "--max_channels"])), maxc]
    if rng.random() < .6:
        nign = int(rng.integers(0, npre - 3))
        argv += ["--n_ignore_presamples", nign]
    there = rng.random() < .5
    if there:
        os.mkdir(outd)
        txt, ex = run(ljh2off.main, *argv)
        ctx.check(ex is not None and os.listdir(outd) == [], "convert:existing folder", f"{ex} {os.listdir(outd)}")
        argv += [str(rng.choice(["-r", "--replace_output"]))]
    ctx.case = dict(models=mch, files=fch, max_channels=maxc, ignore=nign, there=there)
    txt, ex = run(ljh2off.main, *argv)
    want = [c for c in mch if c in fch][:maxc]
    if not ctx.check(ex is None, "convert:exit", f"{ex} {txt[-300:]}"):
        return
    ctx.check(sorted(os.listdir(outd)) == sorted([f"aa_chan{c}.off" for c in want] + ["aa_experiment_state.txt"]), "convert:files", f"{os.listdir(outd)}")
    ctx.check(open(os.path.join(outd, "aa_experiment_state.txt"), encoding="utf8").read() == text, "convert:states", "")
    ctx.check(txt.rstrip().endswith(os.path.abspath(os.path.join(outd, f"aa_chan{want[0]}.off"))), "convert:message", txt[-300:])
    for c in want:
        hd, P, B, recs, left = parse_off(os.path.join(outd, f"aa_chan{c}.off"))
        ctx.same(P, models[c][0], "convert:projectors")
        ctx.same(B, models[c][1], "convert:basis")
        d = data[c].astype(float)
        got = np.array([r[7:] for r in recs], dtype=float)
        full = d @ models[c][0].T
        ctx.check(left == 0 and got.shape == full.shape and np.all(np.abs(got - full) <= 1e-6 * (d @ np.abs(models[c][0].T)) + 1e-6), "convert:coefficients", f"channel {c}")
        ctx.close([r[4] for r in recs], d[:, :npre - nign].mean(axis=1), "convert:pretrigger mean", rtol=1e-5)
        x = np.arange(npre - nign)
        slope = np.array([np.polyfit(x, q[:npre - nign], 1)[0] for q in d])
        ctx.close([r[5] for r in recs], slope * (npre - nign - 1), "convert:pretrigger delta", rtol=1e-4, atol=1.)
        ctx.count("records", len(recs))
    if len(want) > 1 or nign or maxc < 99:
        ctx.nontrivial(len(want), nign, maxc, there)


@monitor(30, 300)
def pictures(ctx):
    """A plotted pulse model shows its projectors, basis, training pulses and what the model leaves of them."""
    import matplotlib.pyplot as plt
    import mass
    rng = ctx.rng
    ns = int(rng.integers(20, 80))
    extra = int(rng.choice([0, 0, 1, 5]))
    nb = 3 + extra + int(rng.integers(0, 4))
    npulse = int(rng.integers(10, 30))
    P, B = random_model(rng, 3, ns)
    B = np.linalg.pinv(P)
    raw = rng.normal(0, 10, (ns, npulse)) + 1000 * B[:, [0]] + rng.normal(5000, 100, npulse) * B[:, [2]]
    m = mass.PulseModel(P, B, nb, raw, 1., 1., 1., "some file", extra, rng.random(ns - 4), rng.random(ns), rng.random(5), 1., rng.random(5))
    labels = m.labels()
    five = [f"5lag{k}" for k in range(-2, extra - 2)]
    want = ["const", "deriv", "pulse"] + [f"svd{k}" for k in range(nb - 3 - extra)] + five
    ctx.case = dict(n_basis=nb, extra=extra, labels=labels)
    ctx.check(list(labels) == want, "pictures:labels", f"{labels}, should be {want}")
    plt.close("all")
    kw = {}
    if rng.random() < .5:
        kw = dict(fig1=plt.figure(), fig2=5) if rng.random() < .5 else dict(fig2=plt.figure(9).number)
    m.plot(**kw)
    nums = plt.get_fignums()
    ctx.check(len(nums) == 2 and (kw.get("fig2") is None or kw["fig2"] in nums) and (kw.get("fig1") is None or kw["fig1"].number in nums), "pictures:figures", f"{nums} {kw}")
    big = [plt.figure(k) for k in nums if len(plt.figure(k).axes) > 2]
    small = [plt.figure(k) for k in nums if len(plt.figure(k).axes) == 1]
    if not ctx.check(len(big) == 1 and len(small) == 1, "pictures:panels", f"{nums}"):
        return
    by = {a.get_title(): a for a in big[0].axes}
    mp = m.basis @ (m.projectors @ raw)
    for title, ys in (("projectors", m.projectors[::-1]), ("basis", m.basis.T[::-1]), ("from ljh", raw.T[:10]), ("residuals", (raw - mp).T[:10])):
        if ctx.check(title in by, "pictures:panel", f"{list(by)}"):
            got = [np.asarray(q.get_ydata()) for q in by[title].lines]
            ctx.check(len(got) == len(ys) and all(np.allclose(a, b, rtol=1e-9, atol=1e-9 * np.abs(raw).max()) for a, b in zip(got, ys)), "pictures:" + title, f"{len(got)} curves")
            texts = [q.get_text() for q in by[title].get_legend().get_texts()]
            ctx.check(texts == (want[::-1] if title in {"projectors", "basis"} else [str(k) for k in range(10)]), "pictures:legend", f"{texts}")
            ctx.count("curves", len(got))
    im = [a for a in big[0].axes if a.images]
    wrong = np.log10(np.maximum(np.abs(m.projectors @ m.basis - np.eye(nb)), 1e-20))
    ctx.check(len(im) >= 1 and np.allclose(10**np.asarray(im[0].images[0].get_array()), 10**wrong, rtol=1e-3, atol=1e-12), "pictures:identity", "")
    ctx.check(big[0]._suptitle is not None and big[0]._suptitle.get_text() == "some file", "pictures:title", "")
    got = {q.get_label(): np.asarray(q.get_ydata()) for q in small[0].axes[0].lines}
    ctx.check(sorted(len(v) for v in got.values()) == [ns, ns] and any(np.allclose(v, raw[:, 0]) for k, v in got.items() if "ljh" in k) and any(np.allclose(v, mp[:, 0]) for k, v in got.items() if "model" in k), "pictures:pulse", f"{list(got)}")
    plt.close("all")
    ctx.nontrivial(nb, extra, tuple(kw))
