"""C01: LJH files are read back exactly as recorded."""
from fractions import Fraction
import os

import numpy as np

from vlib import ljh
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case writes an LJH file byte by byte with an independent writer (random version, record length, presamples, client, row/column/"
        "subframe keys, line endings, record contents, and a cut at an arbitrary byte of the record region) and reads it with mass; "
        "non-trivial = at least one complete record or a truncation inside a record; distinct by (version, geometry, cut, header options).")
ASSUMPTIONS = ["the independent writer/parser in vlib/ljh.py encodes the documented LJH 2.1/2.2 layout (doc/LJHfiles.md)"]


def gen(ctx, nmax=40):
    import mass
    rng = ctx.rng
    ver = str(rng.choice(["2.2.0", "2.2.1", "2.1.0", "2.0.0", "2.2.0", "2.1.0"]))
    ns = int(rng.choice([1, 2, 3, 7, 16, 33, 100, 257, int(rng.integers(1, 700))]))
    npre = int(rng.integers(0, ns + 1))
    n = int(rng.choice([0, 1, 2, 3, int(rng.integers(0, nmax))], p=[.05, .15, .1, .1, .6]))
    rows = [None, 1, 8, 32, int(rng.integers(1, 300))][int(rng.integers(5))]
    row = None if rng.random() < .3 else int(rng.integers(0, (rows or 30)))
    cols = None if rng.random() < .5 else int(rng.integers(1, 9))
    col = None if rng.random() < .5 else int(rng.integers(0, 8))
    client = [None, "DASTARD version 0.2.15", "DASTARD", "LJHFile 2.1, Lancero", "Matter 3", "NIST DASTARD 0.3"][int(rng.integers(6))]
    source = [None, "Abaco", "Lancero", "Simulated", "Triangle Abaco"][int(rng.integers(5))]
    subdiv = None if rng.random() < .5 else int(rng.integers(1, 200))
    suboff = None if rng.random() < .5 else int(rng.integers(0, 64))
    tso = None if rng.random() < .3 else round(float(rng.uniform(0, 2e9)), 6)
    tb = float(rng.choice([9.6e-6, 5.12e-6, 1e-5, 4e-6, 1.2345678e-6, 7.68e-6, 3.84e-6, 8.3333e-6, round(float(rng.uniform(4e-6, 1e-3)), 12)]))
    eol = "\r\n" if rng.random() < .25 else "\n"
    chan = int(rng.choice([1, 3, 17, 4095, 12345]))
    opts = dict(version=ver, timebase=tb, npre=npre, nsamp=ns, rows=rows, cols=cols, row=row, col=col, client=client, source=source,
                subdiv=subdiv, suboff=suboff, ts_offset=tso, eol=eol, channum=chan)
    if rng.random() < .3:
        opts["rowlabel"] = "Row number"
        opts["collabel"] = "Column number (from 0-3 inclusive)"
    if rng.random() < .3:
        opts["extra"] = ["A comment line with no colon", "Odd key: with: several: colons", "Dummy: 1", "Dummy: 2"]
    if rng.random() < .2:  # a long header (up to 256 lines are legal)
        opts["extra"] = [f"User key {i}: {i}" for i in range(int(rng.integers(30, 200)))]
    kind = int(rng.integers(4))
    if kind == 0:
        data = rng.integers(0, 65536, size=(n, ns)).astype(np.uint16)
    elif kind == 1:
        data = rng.choice(np.array([0, 1, 32767, 32768, 65534, 65535], dtype=np.uint16), size=(n, ns))
    else:
        data = (np.arange(n)[:, None] * 257 + np.arange(ns)[None, :] * 3).astype(np.uint16)
    m = dict(data=data, opts=opts, n=n)
    if ver >= "2.2":
        sub = np.sort(rng.integers(0, 2**int(rng.integers(10, 60)), size=n)).astype(np.int64)
        t = np.sort(rng.integers(0, 2**int(rng.integers(20, 52)), size=n)).astype(np.int64)
        body = ljh.records22(data, sub, t)
        size = 16 + 2 * ns
    else:
        sub = rng.integers(0, 250, size=n)
        t = np.sort(rng.integers(0, 2**32, size=n))
        body = ljh.records21(data, sub, t, reserved=int(rng.integers(256)))
        size = 6 + 2 * ns
    m.update(sub=sub, t=t, size=size)
    cut = len(body)
    if rng.random() < .6 and len(body):
        cut = int(rng.choice([int(rng.integers(0, len(body) + 1)), len(body) - 1, (len(body) // size) * size, size * int(rng.integers(0, n + 1)) + 1, size - 1]))
        cut = max(0, min(len(body), cut))
    m["cut"] = cut
    m["nfull"] = cut // size
    path = os.path.join(ctx.tmp, f"run_x_chan{chan}.ljh")
    m["hb"] = ljh.header(**opts)
    with open(path, "wb") as fp:
        fp.write(m["hb"])
        fp.write(body[:cut])
    m["path"] = path
    m["bytes"] = m["hb"] + body[:cut]
    ctx.case = dict(opts=opts, nrec=n, cut=cut, size=size)
    return m


def expected_times(m):
    """Independent statement of the documented time encodings."""
    o = m["opts"]
    k = m["nfull"]
    rownum = o["row"] or 0
    nrows = o["rows"] if o["rows"] else 1
    div, off = nrows, rownum
    if o["source"] and "Abaco" in o["source"]:
        div, off = 64, 0
    if o["subdiv"] is not None:
        div = o["subdiv"]
    if o["suboff"] is not None:
        off = o["suboff"]
    if o["version"] >= "2.2":
        return div, off, m["sub"][:k], m["t"][:k], None
    ns_per_frame = Fraction(repr(o["timebase"])) * 10**9
    frames = []
    for u, ms in zip(m["sub"][:k], m["t"][:k]):
        ns = int(u) * 4000 + int(ms) * 1000000
        frames.append(4 + (ns - 1) // ns_per_frame)
    frames = np.array(frames, dtype=np.int64)
    return div, off, frames * div + off, None, frames


def verify(ctx, m, f, inverted=False):
    o = m["opts"]
    k = m["nfull"]
    data = m["data"][:k]
    want = ~data if inverted else data
    ctx.same(f.nPulses, k, "record-count")
    ctx.same(f.nSamples, o["nsamp"], "nSamples")
    npre = o["npre"] + (0 if (o["client"] and "DASTARD" in o["client"]) else 3)
    ctx.same(f.nPresamples, npre, "nPresamples")
    ctx.same(f.timebase, o["timebase"], "timebase")
    ctx.same(f.number_of_rows, o["rows"] if o["rows"] is not None else 1, "number_of_rows")
    ctx.same(f.number_of_columns, o["cols"] if o["cols"] is not None else 1, "number_of_columns")
    ctx.same(f.row_number, o["row"] or 0, "row_number")
    ctx.same(f.column_number, o["col"] or 0, "column_number", col=o["col"])
    ctx.same(f.channum, o["channum"], "channum")
    ctx.same(f.timestamp_offset, o["ts_offset"] if o["ts_offset"] is not None else -1.0, "timestamp_offset")
    ctx.same(f.header_size, len(m["hb"]), "header_size")
    ctx.check(f.source == (o["source"] if o["source"] is not None else "Lancero (assumed)"), "source", f.source)
    div, off, sub, usec, frames = expected_times(m)
    ctx.same(f.subframe_divisions, div, "subframe_divisions")
    ctx.same(f.subframe_offset, off, "subframe_offset")
    us = (np.arange(o["nsamp"]) - npre) * o["timebase"] * 1e6
    ctx.close(f.sample_usec, us, "sample_usec", rtol=1e-12, atol=1e-9)
    ctx.count("records_read", k)
    ctx.same(f.subframecount, sub, "subframecount")
    if usec is not None:
        ctx.same(f.datatimes_raw, usec, "datatimes_raw")
        ctx.close(f.datatimes_float, usec / 1e6, "datatimes_float", rtol=1e-15)
    else:
        tf = (frames + off / float(div)) * o["timebase"]
        ctx.close(f.datatimes_float, tf, "datatimes_float", rtol=1e-12)
        ctx.check(np.all(np.abs(np.asarray(f.datatimes_raw) - tf * 1e6) <= 0.5 + 1e-6 * 0 + np.abs(tf) * 1e-9), "datatimes_raw")
    ctx.same(f.alldata, want, "alldata")
    ctx.check(np.asarray(f.alldata).dtype == np.uint16, "dtype")
    ctx.same(f[:], want, "slice-all")
    rng = ctx.rng
    for _ in range(3):
        a, b = sorted(rng.integers(-k - 2, k + 3, size=2))
        st = int(rng.choice([1, 1, 2, -1]))
        ctx.same(f[int(a):int(b):st], want[int(a):int(b):st], "slice")
    if k:
        idx = rng.integers(0, k, size=int(rng.integers(0, 8)))
        ctx.same(f[idx], want[idx], "fancy-index")
        msk = rng.random(k) < .5
        ctx.same(f[msk], want[msk], "bool-index")
        for i in [0, k - 1] + list(rng.integers(0, k, size=3)):
            i = int(i)
            ctx.same(f.read_trace(i), want[i], "read_trace")
            ctx.same(f[i], want[i], "getitem")
            s, t, p = f.read_trace_with_timing(i)
            ctx.same(p, want[i], "read_trace_with_timing")
            ctx.same(s, sub[i], "read_trace_with_timing-subframe")
            ctx.same(t, f.datatimes_raw[i], "read_trace_with_timing-time")
            ctx.count("single_reads", 2)
        for i in (-1, -k, int(rng.integers(-k, 0)), np.int64(rng.integers(-k, k)), np.array(int(rng.integers(-k, k)))):
            ctx.same(f[i], want[i], "getitem-forms", index=repr(i))
            ctx.same(f.read_trace(i), want[i], "read_trace-forms", index=repr(i))
        j = int(rng.integers(0, o["nsamp"]))
        ctx.same(f[:, j], want[:, j], "sample-column")
        ctx.same(f[k - 1, j:], want[k - 1, j:], "sample-tail")
        ctx.same(f[..., j], want[..., j], "ellipsis")
        li = [int(x) for x in rng.integers(-k, k, size=3)]
        ctx.same(f[li], want[li], "list-index")
        ctx.check(ctx.raises(lambda: f.read_trace(k)) is not None, "read-past-end")
        ctx.check(ctx.raises(lambda: f[-k - 1]) is not None, "read-before-start")


def opened(ctx, m):
    """Open; a file with no complete record may be refused (numpy cannot map an empty region)."""
    import mass
    try:
        return mass.LJHFile.open(m["path"])
    except ValueError:
        if m["cut"] == 0 or m["nfull"] == 0:
            ctx.count("refused_empty")
            ctx.check(True, "refused-empty")
            return None
        raise


@monitor(700)
def roundtrip(ctx):
    import pathlib
    import mass
    m = gen(ctx)
    o = m["opts"]
    f = opened(ctx, m)
    if f is None:
        return
    if m["nfull"]:
        ctx.nontrivial(o["version"], o["nsamp"], o["npre"], m["cut"], o["client"], o["source"], o["eol"], o["rows"], o["subdiv"])
    if m["cut"] % m["size"]:
        ctx.count("truncated_inside_record")
    verify(ctx, m, f)
    c = f.copy()
    verify(ctx, m, c)
    # segment sizes: never change the data; segments tile the records
    size = m["size"]
    for seg in (None, size, size + 1, 3 * size + size // 2, int(ctx.rng.integers(size, 20 * size + 2))):
        f.set_segment_size(seg)
        pps = f.pulses_per_seg
        ctx.check(f.segmentsize == pps * size and pps >= 1, "segment-not-whole-records", seg=seg)
        ctx.check(f.n_segments * pps >= m["nfull"], "segments-do-not-cover", nseg=f.n_segments, pps=pps, n=m["nfull"])
        ctx.check(m["nfull"] == 0 or (f.n_segments - 1) * pps < max(1, m["nfull"]) + 1, "too-many-segments", nseg=f.n_segments, pps=pps, n=m["nfull"])
        parts = [f[i * pps:(i + 1) * pps] for i in range(f.n_segments)]
        if not parts:
            ctx.check(m["nfull"] == 0, "no-segments")
            continue
        ctx.same(np.concatenate(parts), m["data"][:m["nfull"]], "segments-concatenate")
        ctx.count("segmentations")
    ctx.check(ctx.raises(lambda: f.set_segment_size(size - 1), ValueError) is not None, "segment-too-small")
    verify(ctx, m, f)
    f.invert_data = True
    verify(ctx, m, f, inverted=True)
    ci = f.copy()
    verify(ctx, m, ci, inverted=True)
    f.invert_data = False
    verify(ctx, m, f)
    g = mass.LJHFile.open(pathlib.Path(m["path"]))
    ctx.same(g.alldata, f.alldata, "pathlib-open")
    ctx.check(open(m["path"], "rb").read() == m["bytes"], "file-modified")


@monitor(150)
def every_cut(ctx):
    """One small file cut at every byte of its last two records: the complete records never change."""
    import mass
    m = gen(ctx, nmax=5)
    o = m["opts"]
    ctx.need(o["nsamp"] <= 40 and m["n"] >= 1)
    size = m["size"]
    body = (ljh.records22 if o["version"] >= "2.2" else ljh.records21)(m["data"], m["sub"], m["t"])
    lo = max(size, len(body) - 2 * size)
    for cut in range(lo, len(body) + 1):
        with open(m["path"], "wb") as fp:
            fp.write(m["hb"] + body[:cut])
        k = cut // size
        f = mass.LJHFile.open(m["path"])
        ctx.same(f.nPulses, k, "record-count-cut", cut=cut)
        ctx.same(f.alldata, m["data"][:k], "alldata-cut", cut=cut)
        if o["version"] >= "2.2":
            ctx.same(f.subframecount, m["sub"][:k], "subframecount-cut", cut=cut)
            ctx.same(f.datatimes_raw, m["t"][:k], "datatimes-cut", cut=cut)
        ctx.count("crash_points")
    ctx.nontrivial(o["version"], o["nsamp"], m["n"])


@monitor(60)
def header_cut(ctx):
    """A file cut inside its header is refused, never read as data."""
    import mass
    m = gen(ctx, nmax=3)
    hb = m["hb"]
    end = hb.index(b"#End of Header")
    for cut in ctx.rng.integers(0, end + len(b"#End of Header") - 1, size=6):
        with open(m["path"], "wb") as fp:
            fp.write(hb[:int(cut)])
        e = ctx.raises(lambda: mass.LJHFile.open(m["path"]))
        ctx.check(e is not None, "opened-without-header", cut=int(cut))
        ctx.count("header_cuts")
        ctx.nontrivial(int(cut), m["opts"]["nsamp"])


@monitor(40)
def channel_view(ctx):
    """Through a TESGroup, every record of every channel is what the file holds (also by segment iteration)."""
    import mass
    rng = ctx.rng
    ns, npre = int(rng.integers(20, 120)), int(rng.integers(5, 15))
    files, want = [], {}
    for ch in rng.choice(np.arange(1, 60), size=int(rng.integers(1, 4)), replace=False):
        n = int(rng.integers(1, 60))
        d = ljh.pulse_data(rng, n, ns, npre)
        p = os.path.join(ctx.tmp, f"a_chan{ch}.ljh")
        sub, us = ljh.write22(p, d, npre=npre, rows=8, row=1, channum=int(ch))
        files.append(p)
        want[int(ch)] = (d, sub, us)
    ctx.case = dict(ns=ns, npre=npre, channels={c: len(w[0]) for c, w in want.items()})
    g = mass.TESGroup(files, noise_only=False)
    ctx.check(sorted(g.channel.keys()) == sorted(want), "channels")
    for ch, (d, sub, us) in want.items():
        ds = g.channel[ch]
        ctx.same(ds.nPulses, len(d), "ds-nPulses")
        for i in {0, len(d) - 1, int(rng.integers(len(d)))}:
            ctx.same(ds.read_trace(i), d[i], "ds-read_trace")
        ctx.same(ds.data if not hasattr(ds, "alldata") else ds.alldata, d, "ds-alldata")
        ctx.count("channel_records", len(d))
        ctx.nontrivial(ch, len(d), ns)
