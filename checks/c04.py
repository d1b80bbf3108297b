"""C04: OFF files hold the projected records and reconstruct them."""
import base64
import json
import os
import struct

import h5py
import numpy as np

from vlib import ljh, group
from vlib.core import monitor
from vlib.offparse import parse_off, random_model

BUILD = "fast"
RULE = ("Cases convert generated LJH files (random geometry, record counts crossing the internal batch size, extreme samples, several source files, several channels) with random "
        "projectors/basis and decode the OFF bytes with an independent struct parser; or write OFF files byte by byte (versions 0.1-0.3, any byte cut) and read them with mass. "
        "Non-trivial = at least two records with distinct contents.")
ASSUMPTIONS = ["OFF layout as documented in mass/off/off.py and dastard's OFF.md: JSON header, float64 projectors, float64 basis, packed little-endian records",
               "float32 storage: derived quantities compared at float32 precision; times at 1 microsecond"]


def check_records(ctx, recs, data, usec, frames, P, B, npre, nign):
    """Oracle: definition of every field, record by record."""
    ns = data.shape[1]
    if not ctx.check(len(recs) == len(data), "off-record-count", f"{len(recs)} != {len(data)}"):
        return
    x = data.astype(float)
    coefs = x @ P.T
    model = coefs @ B.T
    res = model - x
    m = npre - nign
    scale = np.abs(x).max() if x.size else 1.0
    rr = np.array([r[:9 + P.shape[0] - 2] for r in recs], dtype=object) if recs else None
    if rr is None:
        return
    rr = [list(r) for r in recs]
    col = lambda j: np.array([r[j] for r in rr])  # noqa: E731
    ctx.same(col(0), np.full(len(recs), ns), "off-recordSamples")
    ctx.same(col(1), np.full(len(recs), npre), "off-recordPreSamples")
    ctx.same(col(2), frames, "off-framecount")
    ctx.check(np.all(np.abs(col(3).astype(np.int64) - usec * 1000) < 1000), "off-unixnano", got=col(3)[:5], want=usec[:5] * 1000)
    ctx.close(col(4), x[:, :m].mean(axis=1), "off-pretriggerMean", rtol=1e-6, atol=1e-6 * scale)
    if m >= 2:
        t = np.arange(m) - (m - 1) / 2
        slope = (x[:, :m] @ t) / (t @ t)
        ctx.close(col(5), slope * (m - 1), "off-pretriggerDelta", rtol=1e-5, atol=2e-6 * scale + 1e-4)
    ctx.close(col(6), res.std(axis=1), "off-residualStdDev", rtol=2e-6, atol=1e-6 * scale * max(1, np.abs(B).max()))
    cscale = np.abs(x) @ np.abs(P.T)
    got = np.array([r[7:] for r in rr], dtype=float)
    ctx.check(got.shape == coefs.shape and np.all(np.abs(got - coefs) <= 1e-6 * cscale + 1e-6 * np.abs(coefs) + 1e-30), "off-coefs",
              got=got[:2], want=coefs[:2])
    ctx.count("off_records_checked", len(recs))


@monitor(80)
def convert(ctx):
    import mass
    from mass.core.ljh2off import ljh2off, multi_ljh2off
    rng = ctx.rng
    big = rng.random() < .2
    ns = int(rng.integers(900, 1500)) if big else int(rng.choice([8, 20, 64, int(rng.integers(6, 300))]))
    n1 = int(rng.integers(1500, 2600)) if big else int(rng.integers(1, 60))
    npre = int(rng.integers(5, ns))
    nign = int(rng.integers(0, min(4, npre - 2)))
    nb = int(rng.choice([3, 4, 5, 8]))
    subdiv = int(rng.choice([1, 8, 30, 64]))
    P, B = random_model(rng, nb, ns)
    paths, datas, ts, frames = [], [], [], []
    nfiles = int(rng.choice([1, 1, 2, 3])) if not big else 1
    dastard = rng.random() < .7
    npre_r = npre if dastard else npre + 3
    m = min(npre_r - nign, ns)
    for i in range(nfiles):
        n = n1 if i == 0 else int(rng.integers(1, 30))
        kind = int(rng.integers(3))
        if kind == 0:
            d = rng.integers(0, 65536, size=(n, ns)).astype(np.uint16)
        elif kind == 1:
            d = ljh.pulse_data(rng, n, ns, npre)
        else:
            d = rng.choice(np.array([0, 65535, 32768], dtype=np.uint16), size=(n, ns))
        p = os.path.join(ctx.tmp, f"s{i}_chan{3}.ljh")
        sub = np.cumsum(rng.integers(1, 10**6, size=n))
        us = 1700000000000000 + np.cumsum(rng.integers(0, 10**6, size=n))
        tail = rng.integers(0, 256, size=int(rng.integers(0, 15))).astype(np.uint8).tobytes()
        ljh.write22(p, d, sub, us, npre=npre, subdiv=subdiv, rows=4, row=2, cols=3, col=1, timebase=5e-6, tail=tail, channum=3, client="DASTARD" if dastard else "Matter")
        paths.append(p)
        datas.append(d)
        ts.append(us)
        frames.append(sub // subdiv)
    off = os.path.join(ctx.tmp, "o_chan3.off")
    raws = [open(p, "rb").read() for p in paths]
    P0, B0 = P.copy(), B.copy()
    fmode = int(rng.integers(3))
    Pa, Ba = (P, B) if fmode == 0 else (np.asfortranarray(P), np.asfortranarray(B)) if fmode == 1 else (np.repeat(P, 2, axis=1)[:, ::2], B.T.copy().T)
    ctx.case = dict(ns=ns, n=[len(d) for d in datas], npre=npre, nign=nign, nb=nb, subdiv=subdiv, layout=fmode, dastard=dastard)
    if nfiles == 1:
        ljh2off(paths[0], off, Pa, Ba, nign, "model.hdf5")
    else:
        multi_ljh2off(paths, off, Pa, Ba, nign, "model.hdf5")
    ctx.check(np.array_equal(P, P0) and np.array_equal(B, B0), "model-mutated")
    hd, P2, B2, recs, left = parse_off(off)
    ctx.same(P2, P, "off-projectors")
    ctx.same(B2, B, "off-basis")
    ctx.check(left == 0, "off-leftover")
    ctx.check(hd["FramePeriodSeconds"] == 5e-6 and hd["NumberOfBases"] == nb and hd["FileFormat"] == "OFF", "off-header")
    ri = hd["ReadoutInfo"]
    ctx.check((ri["RowNum"], ri["NumberOfRows"], ri["NumberOfColumns"], ri["ColumnsNum"]) == (2, 4, 3, 1), "off-readoutinfo", got=ri)
    data, usec, frame = np.concatenate(datas), np.concatenate(ts), np.concatenate(frames)
    check_records(ctx, recs, data, usec, frame, P, B, npre_r, nign) if m == npre_r - nign else None
    for p, r in zip(paths, raws):
        ctx.check(open(p, "rb").read() == r, "ljh-modified")
    verify_reader(ctx, mass.off.OffFile(off), hd, P, B, recs)
    if len(data) > 1:
        ctx.nontrivial(ns, len(data), nb, nign, subdiv)


def verify_reader(ctx, f, hd, P, B, recs):
    """OffFile shows exactly the records in the bytes, whatever the access pattern."""
    rng = ctx.rng
    n = len(recs)
    nb = hd["NumberOfBases"]
    v3 = hd["FileFormatVersion"] == "0.3.0"
    names = ["recordSamples", "recordPreSamples", "framecount", "unixnano", "pretriggerMean"] + (["pretriggerDelta"] if v3 else []) + [
        "residualStdDev", "pulseMean", "derivativeLike", "filtValue"]
    ctx.check(len(f) == n and f.nRecords == n, "reader-length", f"{len(f)} != {n}")
    ctx.same(f.projectors, P, "reader-projectors")
    ctx.same(f.basis, B, "reader-basis")
    ctx.same(f.framePeriodSeconds, float(hd["FramePeriodSeconds"]), "reader-frameperiod")
    ctx.count("off_records_read", n)
    if n == 0:
        return
    cols = {k: np.array([r[j] for r in recs]) for j, k in enumerate(names)}
    for k, want in cols.items():
        ctx.same(np.asarray(f[k]).astype(want.dtype), want, "reader-column-" + k)
        a, b = sorted(rng.integers(0, n + 1, size=2))
        ctx.same(np.asarray(f[int(a):int(b)][k]).astype(want.dtype), want[a:b], "reader-slice-" + k)
    idx = rng.integers(0, n, size=5)
    for k in ("filtValue", "unixnano"):
        ctx.same(np.asarray(f[idx][k]).astype(cols[k].dtype), cols[k][idx], "reader-index")
    if nb > 3:
        j0 = len(names)
        ctx.same(np.asarray(f["extraCoefs"], dtype=float).reshape(n, nb - 3), np.array([r[j0:] for r in recs], dtype=float), "reader-extraCoefs")
    c0 = len(names) - 3
    for i in {0, n - 1, int(rng.integers(n))}:
        co = np.array(recs[i][c0:], dtype=float)
        model = B @ co
        tol = 1e-6 * (np.abs(B) @ np.abs(co)) + 1e-12
        got = f.modeledPulse(i)
        ctx.check(got.shape == model.shape and np.all(np.abs(got - model) <= tol), "modeledPulse", i=i)
        x, y = f.recordXY(i)
        ctx.same(y, got, "recordXY-y")
        want = (np.arange(recs[i][0]) - recs[i][1]) * float(hd["FramePeriodSeconds"])
        ctx.close(x, want, "recordXY-x", rtol=1e-12, atol=1e-18)
        ctx.count("pulses_modelled")


def write_off(path, rng, version, nb, ns, n, unicode_header):
    P, B = random_model(rng, nb, ns)
    hd = {"FileFormatVersion": version, "FramePeriodSeconds": float(rng.choice([9.6e-6, 1e-5])), "NumberOfBases": nb, "FileFormat": "OFF",
          "ModelInfo": {"Projectors": {"Rows": nb, "Cols": ns}, "Basis": {"Rows": ns, "Cols": nb}, "ModelFile": "modèle_µ.hdf5" if unicode_header else "m.hdf5"},
          "ReadoutInfo": {"ColumnNum": 0, "RowNum": 1, "NumberOfColumns": 1, "NumberOfRows": 32}}
    if version == "0.1.0":
        hd["ModelInfo"]["Projectors"]["RowMajorFloat64ValuesBase64"] = base64.encodebytes(P.tobytes()).decode()
        hd["ModelInfo"]["Basis"]["RowMajorFloat64ValuesBase64"] = base64.encodebytes(B.tobytes()).decode()
    head = (json.dumps(hd, indent=4, ensure_ascii=False) + "\n").encode("utf-8")
    if version != "0.1.0":
        head += P.tobytes() + B.tobytes()
    v3 = version == "0.3.0"
    fmt = "<iiqqff" + ("f" if v3 else "") + f"{nb}f"
    recs, body = [], b""
    for i in range(n):
        vals = [ns, int(rng.integers(0, ns)), int(rng.integers(0, 2**50)), int(rng.integers(0, 2**61))] + [
            float(np.float32(v)) for v in rng.normal(1000, 500, size=2 + int(v3) + nb)]
        b = struct.pack(fmt, *vals)
        recs.append(struct.unpack(fmt, b))
        body += b
    return hd, P, B, recs, head, body, struct.calcsize(fmt)


@monitor(200)
def read(ctx):
    """OFF files of each version, cut anywhere in the record region."""
    import mass
    rng = ctx.rng
    version = str(rng.choice(["0.1.0", "0.2.0", "0.3.0", "0.3.0"]))
    nb, ns, n = int(rng.choice([3, 4, 6])), int(rng.integers(5, 80)), int(rng.integers(1, 15))
    uni = bool(rng.random() < .25)
    path = os.path.join(ctx.tmp, "r_chan1.off")
    hd, P, B, recs, head, body, size = write_off(path, rng, version, nb, ns, n, uni)
    cuts = {len(body), int(rng.integers(size, len(body) + 1)), (n - 1) * size + 1 if n > 1 else size, len(body) - 1 if n > 1 else size}
    for cut in sorted(cuts):
        with open(path, "wb") as fp:
            fp.write(head + body[:cut])
        f = mass.off.OffFile(path)
        verify_reader(ctx, f, hd, P, B, recs[:cut // size])
        ctx.count("off_cut_points")
        f.close()
    ctx.case = dict(version=version, nb=nb, ns=ns, n=n, unicode_header=uni)
    ctx.nontrivial(version, nb, ns, n)


@monitor(60)
def growth(ctx):
    """A file that grows (also in partial records) shows exactly the complete records after each refresh."""
    import mass
    rng = ctx.rng
    nb, ns, n = 3 + int(rng.integers(0, 3)), int(rng.integers(5, 40)), int(rng.integers(4, 20))
    path = os.path.join(ctx.tmp, "g_chan1.off")
    hd, P, B, recs, head, body, size = write_off(path, rng, "0.3.0", nb, ns, n, False)
    pts = sorted({size, len(body)} | {int(c) for c in rng.integers(size, len(body), size=5)})
    with open(path, "wb") as fp:
        fp.write(head + body[:pts[0]])
    f = mass.off.OffFile(path)
    done = pts[0]
    for p in pts[1:]:
        with open(path, "ab") as fp:
            fp.write(body[done:p])
        done = p
        if hasattr(f, "_updateMmap"):
            f._updateMmap()
        else:
            f = mass.off.OffFile(path)
        verify_reader(ctx, f, hd, P, B, recs[:p // size])
        ctx.count("growth_steps")
    ctx.nontrivial(nb, ns, tuple(pts))
    ctx.case = dict(nb=nb, ns=ns, points=pts)


@monitor(120)
def pulse_model(ctx):
    """A stored model survives save and load; inversion flips all but the mean component, in the file only."""
    import mass
    rng = ctx.rng
    ns, nb = int(rng.integers(20, 90)), int(rng.integers(3, 7))
    P, B = random_model(rng, 3, ns)
    if rng.random() < .7:
        B = np.linalg.pinv(P)
    train = rng.standard_normal((ns, 40)) * 10 + B @ rng.standard_normal((3, 40)) * 100
    f5 = rng.standard_normal(ns - 4)
    m = mass.PulseModel(P.copy(), B.copy(), nb, train, v_dv=3.5, pretrig_rms_median=1.25, pretrig_rms_sigma=.5, file_name="/x/y_chan1.ljh",
                        extra_n_basis_5lag=0, f_5lag=f5, average_pulse_for_5lag=rng.standard_normal(ns), noise_psd=rng.random(ns // 2 + 1),
                        noise_psd_delta_f=12.5, noise_autocorr=rng.standard_normal(ns))
    ctx.check(m.projectors.shape == (nb, ns) and m.basis.shape == (ns, nb), "model-shape")
    ctx.same(m.projectors[:3], P, "model-keeps-projectors")
    ctx.same(m.basis[:, :3], B, "model-keeps-basis")
    if np.allclose(P @ B, np.eye(3)):
        ctx.close(m.projectors @ m.basis, np.eye(nb), "projectors-dot-basis-identity", atol=1e-7)
    attrs = ["projectors", "basis", "n_basis", "pulses_for_svd", "v_dv", "pretrig_rms_median", "pretrig_rms_sigma", "file_name",
             "extra_n_basis_5lag", "f_5lag", "average_pulse_for_5lag", "noise_psd", "noise_psd_delta_f", "noise_autocorr"]
    keep = {a: np.array(getattr(m, a)) if a != "file_name" else m.file_name for a in attrs}
    inv = bool(rng.random() < .5)
    path = os.path.join(ctx.tmp, "m.hdf5")
    with h5py.File(path, "w") as h:
        m.toHDF5(h.create_group("7"), inv)
    for a in attrs:
        ctx.check(np.array_equal(keep[a], getattr(m, a)), "saving-changes-model", a, inverted=inv)
    with h5py.File(path, "r") as h:
        m2 = mass.PulseModel.fromHDF5(h["7"])
    sgn = np.ones(nb)
    if inv:
        sgn[1:] = -1
    for a in attrs:
        want = keep[a]
        if a == "projectors":
            want = want * sgn[:, None]
        elif a == "basis":
            want = want * sgn[None, :]
        ctx.check(np.array_equal(want, getattr(m2, a)), "load-differs", a, inverted=inv)
    path2 = os.path.join(ctx.tmp, "m2.hdf5")
    with h5py.File(path2, "w") as h:
        m2.toHDF5(h.create_group("7"), False)
    with h5py.File(path2, "r") as h:
        m3 = mass.PulseModel.fromHDF5(h["7"])
    ctx.check(np.array_equal(m3.projectors, m2.projectors) and np.array_equal(m3.basis, m2.basis), "second-roundtrip")
    loaded = mass.core.ljh2off.load_pulse_models(path2)
    ctx.check(list(loaded) == [7] and np.array_equal(loaded[7].basis, m2.basis), "load_pulse_models")
    ctx.count("models")
    ctx.nontrivial(ns, nb, inv)
    ctx.case = dict(ns=ns, nb=nb, inverted=inv)


@monitor(40)
def loop(ctx):
    """Whole families: every channel with a model and a source file is converted (up to the limit), with its own model."""
    import mass
    from mass.core.ljh2off import ljh2off_loop, multi_ljh2off_loop
    rng = ctx.rng
    ns = int(rng.integers(10, 60))
    pool = [1, 2, 3, 10, 11, 30]
    mch = sorted(int(c) for c in rng.choice(pool, size=int(rng.integers(1, 6)), replace=False))
    sets = [["aa", "bb"], ["bb", "aa"], ["aa"], ["aa"]][int(rng.integers(4))]
    fch = {s: sorted(int(c) for c in rng.choice(pool, size=int(rng.integers(1, 6)), replace=False)) for s in sets}
    data = {}
    for s in sets:
        for c in fch[s]:
            d = rng.integers(0, 65536, size=(int(rng.integers(1, 8)), ns)).astype(np.uint16)
            ljh.write22(os.path.join(ctx.tmp, f"{s}_chan{c}.ljh"), d, npre=6, channum=c)
            data[s, c] = d
    mp = os.path.join(ctx.tmp, "model.hdf5")
    models = {}
    with h5py.File(mp, "w") as h:
        for c in mch:
            P, B = random_model(rng, 3, ns)
            models[c] = (P, B)
            mass.PulseModel(P, B, 3, rng.random((ns, 4)), 1., 1., 1., "f", 0, rng.random(ns - 4), rng.random(ns), rng.random(5), 1., rng.random(5)).toHDF5(h.create_group(str(c)), False)
    maxc = int(rng.choice([1, 2, 100]))
    outd = os.path.join(ctx.tmp, "out")
    os.mkdir(outd)
    ctx.case = dict(models=mch, files=fch, max_channels=maxc)
    want = [c for c in mch if any(c in fch[s] for s in sets)][:maxc]
    if len(sets) == 1:
        state = rng.random() < .5
        txt = "# unix time in nanoseconds, state label\n1, START\n2, µA\n"
        if state:
            with open(os.path.join(ctx.tmp, "aa_experiment_state.txt"), "w", encoding="utf8") as fp:
                fp.write(txt)
        ref = os.path.join(ctx.tmp, f"aa_chan{fch['aa'][0]}.ljh")
        if not state:
            e = ctx.raises(lambda: ljh2off_loop(ref, mp, outd, maxc, 0, show_progress=False))
            ctx.check(e is not None, "missing-state-file-accepted")
        ln, offs = ljh2off_loop(ref, mp, outd, maxc, 0, require_experiment_state=state, show_progress=False)
        if state:
            ctx.check(open(os.path.join(outd, "aa_experiment_state.txt"), encoding="utf8").read() == txt, "state-file-copy")
        ctx.check([os.path.basename(x) for x in ln] == [f"aa_chan{c}.ljh" for c in want], "loop-ljh-names", got=ln)
    else:
        ln, offs = multi_ljh2off_loop([os.path.join(ctx.tmp, s) for s in sets], mp, os.path.join(outd, "aa"), maxc, 0, show_progress=False)
    ctx.check([os.path.basename(o) for o in offs] == [f"aa_chan{c}.off" for c in want], "loop-off-names", got=offs, want=want)
    ctx.check(sorted(f for f in os.listdir(outd) if f.endswith(".off")) == sorted(f"aa_chan{c}.off" for c in want), "loop-files-on-disk")
    for c, o in zip(want, offs):
        hd, P2, B2, recs, left = parse_off(o)
        d = np.concatenate([data[s, c] for s in sets if (s, c) in data])
        ctx.same(P2, models[c][0], "loop-wrong-model")
        got = np.array([r[7:] for r in recs], dtype=float)
        wantc = d.astype(float) @ models[c][0].T
        ctx.check(got.shape == wantc.shape and np.all(np.abs(got - wantc) <= 1e-6 * (d.astype(float) @ np.abs(models[c][0].T)) + 1e-6), "loop-coefs", channel=c)
        ctx.count("loop_files")
    ctx.nontrivial(tuple(mch), str(fch), maxc)


@monitor(8)
def pipeline(ctx):
    """Full route: filter in mass, store the model, convert: OFF coefficients equal the filtered values (also for inverted data)."""
    import mass
    rng = ctx.rng
    inv = bool(rng.random() < .5)
    f = group.make_files(ctx, chans=(1, 4), n=80, nnoise=40, ns=int(rng.integers(60, 140)), npre=20, invert=inv, td=15)
    g = group.open_group(f, invert_data=inv)
    g.summarize_data(peak_time_microsec=150.0)
    g.auto_cuts()
    g.compute_noise()
    g.compute_ats_filter(shift1=False)
    g.filter_data()
    ctx.case = dict(inverted=inv, ns=f["ns"], bad=str(g.why_chan_bad) if hasattr(g, "why_chan_bad") else str(g._bad_channums))
    ctx.check(g.num_good_channels == 2, "channel-lost", ctx.case["bad"])
    nb = int(rng.integers(3, 6))
    path = g.pulse_model_to_hdf5(n_basis=nb, replace_output=True, _rethrow=True)
    outd = os.path.join(ctx.tmp, "out")
    os.mkdir(outd)
    _, offs = mass.ljh2off.ljh2off_loop(f["pulse"][0], path, outd, 99, 0, require_experiment_state=False)
    ctx.check(len(offs) == 2, "pipeline-off-count")
    for o, ds in zip(offs, g):
        off = mass.off.OffFile(o)
        ctx.close(np.asarray(off["filtValue"], dtype=float), ds.p_filt_value[:], "off-filtvalue", rtol=2e-4, atol=2e-2, inverted=inv)
        raw = f["truth"][ds.channum]["data"].astype(float)
        for i in (0, 40, 79):
            m = off.modeledPulse(i)
            ctx.check(np.std(m - raw[i]) < 60, "off-reconstruction", std=float(np.std(m - raw[i])), inverted=inv)
            ctx.close(off["residualStdDev"][i], np.std(m - raw[i]), "off-residual-consistent", rtol=1e-2, atol=.05)
        ctx.same(off["unixnano"] // 1000 + (off["unixnano"] % 1000 > 500), f["truth"][ds.channum]["usec"], "off-time")
        ctx.count("pipeline_channels")
    # a model written to a file that is already open is the same, and an unsupported one is refused there too
    import h5py
    with h5py.File(os.path.join(ctx.tmp, "open.h5"), "w") as h, h5py.File(path, "r") as h2:
        ret = g.pulse_model_to_hdf5(hdf5_file=h, n_basis=nb, _rethrow=True)
        ctx.check(ret == h.filename, "model file name", str(ret))
        ctx.check(sorted(h) == sorted(h2) == ["1", "4"], "channels with models", f"{sorted(h)} {sorted(h2)}")
        for c in h2:
            P, Q = h[c]["svdbasis/projectors"][:3], h2[c]["svdbasis/projectors"][:3]
            ctx.close(P, Q, "model in an open file", rtol=1e-6, atol=1e-6 * np.abs(Q).max())
    with h5py.File(os.path.join(ctx.tmp, "open2.h5"), "w") as h:
        for kw in (dict(hdf5_file=h), dict(replace_output=True)):
            e = ctx.raises(lambda: g.pulse_model_to_hdf5(n_basis=nb, noise_weight_basis=False, _rethrow=True, **kw), Exception)
            ctx.check(e is not None, "a basis not weighted by noise is not supported", str(list(kw)))
    ctx.nontrivial(inv, f["ns"], nb)
    group.close_group(g)
