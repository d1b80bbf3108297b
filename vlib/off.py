"""Workloads: OFF files, experiment-state files and ChannelGroups opened on them."""
import json
import os

import numpy as np

DT3 = [("recordSamples", "<i4"), ("recordPreSamples", "<i4"), ("framecount", "<i8"), ("unixnano", "<i8"), ("pretriggerMean", "<f4"), ("pretriggerDelta", "<f4"), ("residualStdDev", "<f4")]
T0 = 1_600_000_000_000_000_000


def dtype(nb=3, version="0.3.0"):
    d = [x for x in DT3 if version == "0.3.0" or x[0] != "pretriggerDelta"]
    d = d + [("pulseMean", "<f4"), ("derivativeLike", "<f4"), ("filtValue", "<f4")]
    if nb > 3:
        d.append(("extraCoefs", "<f4", (nb - 3,)))
    return np.dtype(d)


def header(nb, ns, version="0.3.0", frame=1e-5, rows=32, subdiv=None, projectors=None, basis=None, row=1, col=0, ncols=1, subkey="SubframeDivisions"):
    P = np.zeros((nb, ns)) if projectors is None else projectors
    B = np.zeros((ns, nb)) if basis is None else basis
    hd = {"FileFormat": "OFF", "FileFormatVersion": version, "FramePeriodSeconds": frame, "NumberOfBases": nb,
          "ModelInfo": {"Projectors": {"Rows": nb, "Cols": ns}, "Basis": {"Rows": ns, "Cols": nb}, "ModelFile": "m.hdf5"},
          "ReadoutInfo": {"ColumnNum": col, "RowNum": row, "NumberOfColumns": ncols, "NumberOfRows": rows}}
    if subdiv is not None:
        hd["ReadoutInfo"][subkey] = subdiv
    return (json.dumps(hd, indent=4) + "\n").encode() + np.ascontiguousarray(P, "<f8").tobytes() + np.ascontiguousarray(B, "<f8").tobytes()


def records(rng, n, nb=3, version="0.3.0", ns=100, npre=30, t0=T0, dt=2_000_000, amps=(3000., 5000., 6500.), res=1e-3):
    r = np.zeros(n, dtype(nb, version))
    r["recordSamples"], r["recordPreSamples"] = ns, npre
    r["unixnano"] = t0 + np.cumsum(rng.integers(dt // 2, dt * 2, size=n))
    r["framecount"] = (r["unixnano"] - t0) // 10_000
    r["pretriggerMean"] = 2000 + 20 * np.sin(np.arange(n) / max(n, 1) * 6) + rng.normal(0, 1, n)
    r["residualStdDev"] = np.abs(rng.normal(10, 1, n))
    a = rng.choice(amps, n) * (1 + res * rng.standard_normal(n))
    r["filtValue"] = a
    r["pulseMean"] = a * 0.3 + rng.normal(0, 1, n)
    r["derivativeLike"] = a * rng.uniform(-0.5, 0.5, n) * 2
    if nb > 3:
        r["extraCoefs"] = rng.normal(size=(n, nb - 3))
    return r


def write(path, recs, nb=3, ns=100, **kw):
    with open(path, "wb") as fp:
        fp.write(header(nb, ns, **kw))
        fp.write(recs.tobytes())


def states(path, entries, header="# unix time in nanoseconds, state label", end="\n"):
    with open(path, "w", encoding="utf-8") as fp:
        fp.write(header + "\n" + "\n".join(f"{t}, {lab}" for t, lab in entries) + (end if entries else ""))


def make(ctx, chans=(1, 3), n=400, nb=3, nstates=4, labels=("A", "B", "C"), tag="run", ns=100, **kw):
    """OFF files of several channels with one experiment-state file; returns paths and truth."""
    rng = ctx.rng
    out = dict(paths=[], recs={}, dir=ctx.tmp)
    for ch in chans:
        r = records(rng, n[ch] if isinstance(n, dict) else n, nb=nb, ns=ns)
        p = os.path.join(ctx.tmp, f"{tag}_chan{ch}.off")
        write(p, r, nb=nb, ns=ns, **kw)
        out["paths"].append(p)
        out["recs"][ch] = r
    u = np.concatenate([r["unixnano"] for r in out["recs"].values()])
    lo, hi = int(u.min()), int(u.max())
    ts = sorted(int(x) for x in rng.integers(lo, max(hi, lo + 1), nstates - 1)) if nstates > 1 else []
    ent = [(lo - 1000, "START")] + [(t, str(rng.choice(labels))) for t in ts] if nstates else [(lo - 1000, "START")]
    out["entries"] = ent
    out["statefile"] = os.path.join(ctx.tmp, f"{tag}_experiment_state.txt")
    states(out["statefile"], ent)
    return out


def truth_state(unixnano, entries):
    """Label of each pulse (None before the first)."""
    t = np.array([e[0] for e in entries], dtype=np.int64)
    i = np.searchsorted(t, np.asarray(unixnano), side="right") - 1
    return np.array([entries[k][1] if k >= 0 else "" for k in i], dtype=object)
