"""Workloads: directories of LJH pulse and noise files, and TESGroups opened on them."""
import os

import numpy as np

from vlib import ljh


def template(ns, npre, tr=3.0, td=30.0):
    t = np.arange(ns) - npre
    s = np.where(t > 0, np.exp(-np.clip(t, 0, None) / td) - np.exp(-np.clip(t, 0, None) / tr), 0.0)
    return s / s.max()


def make_files(ctx, chans=(1,), n=60, nnoise=40, ns=100, npre=30, base=2000, noise=4.0, amps=None, tr=3.0, td=25.0, invert=False,
               tag="run", drift=0.0, client="DASTARD 0.2", rows=8, subdiv=None, timebase=1e-5, usec0=1_600_000_000_000_000, period=20000, version="2.2.0",
               jitter=True, dirname=None, times=None, skew=0.0):
    """Write pulse and noise files; return a dict with the paths and what was put in them."""
    rng = ctx.rng
    d = dirname or ctx.tmp
    out = dict(pulse=[], noise=[], truth={}, ns=ns, npre=npre, dir=d)
    s = template(ns, npre, tr, td)
    for ch in chans:
        nn = n[ch] if isinstance(n, dict) else n
        a = rng.choice([3000., 5000., 6500.], size=nn) * (1 + 0.002 * rng.standard_normal(nn)) if amps is None else np.asarray(amps(rng, nn) if callable(amps) else amps, dtype=float)
        b = base + drift * np.linspace(-1, 1, nn) + (rng.normal(0, 2, nn) if jitter else 0)
        g = 1 + 0.01 * drift / 50 * np.linspace(-1, 1, nn) if drift else np.ones(nn)
        x = b[:, None] + (a * g)[:, None] * s[None, :] + rng.normal(0, noise, size=(nn, ns))
        x = np.clip(np.round(x), 0, 65535).astype(np.uint16)
        if invert:
            x = ~x
        usec = usec0 + np.cumsum(rng.integers(period // 2, period * 2, size=nn))
        if times is not None:  # microseconds after usec0, by channel
            usec = usec0 + np.asarray(times[ch], np.int64)
        sub = ((usec - usec0) / 1e6 * (1 + skew) / timebase * (subdiv or rows)).astype(np.int64)
        p = os.path.join(d, f"{tag}_chan{ch}.ljh")
        ljh.write22(p, x, sub, usec, npre=npre, timebase=timebase, client=client, rows=rows, row=ch % rows, channum=ch, subdiv=subdiv, version=version)
        out["pulse"].append(p)
        out["truth"][ch] = dict(data=x, sub=sub, usec=usec, amp=a, base=b)
        if nnoise:
            z = np.clip(np.round(base + rng.normal(0, noise, size=(nnoise, ns))), 0, 65535).astype(np.uint16)
            if invert:
                z = ~z
            q = os.path.join(d, f"{tag}_noise_chan{ch}.ljh")
            ljh.write22(q, z, npre=npre, timebase=timebase, client=client, rows=rows, row=ch % rows, channum=ch, subdiv=subdiv)
            out["noise"].append(q)
            out["truth"][ch]["noise"] = z
    return out


def open_group(f, hdf5=None, noise=True, **kw):
    import mass
    h = hdf5 or os.path.join(f["dir"], "mass_out.hdf5")
    nz = list(f["noise"]) if (noise and f["noise"]) else None
    return mass.TESGroup(list(f["pulse"]), nz, hdf5_filename=h, hdf5_noisefilename=h.replace(".hdf5", "_noise.hdf5"), **kw)


def close_group(g):
    for h in (g.hdf5_file, g.hdf5_noisefile):
        try:
            if h is not None:
                h.close()
        except Exception:
            pass
