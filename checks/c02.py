"""C02: LJH file tools conserve pulse records and leave sources alone."""
import os
import shutil
import subprocess
import sys

import numpy as np

from vlib import ljh
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case generates LJH 2.1/2.2 files with unique sample values per record and applies a random history of copy/append/truncate/modify/merge "
        "operations; a list-of-records model predicts the content of every file; all files are re-parsed by an independent byte parser and by mass after each step. "
        "Non-trivial = the operation selected at least one and not trivially all records, or chained on an earlier result.")
ASSUMPTIONS = ["records copied out of an LJH 2.1 file carry the subframe count and microsecond time the reader reports for them (decided by C01)"]


class Src:
    def __init__(self, path, model, ns, npre, tb, v22):
        self.path, self.model, self.ns, self.npre, self.tb, self.v22 = path, model, ns, npre, tb, v22


def make(ctx, name, ns, npre, tb, n, v22=True, tail=0, client=None, base=0, t0=1700000000000000):
    rng = ctx.rng
    data = ((np.arange(n)[:, None] * 641 + base * 7919 + np.arange(ns)[None, :] * 13) % 65536).astype(np.uint16)
    path = os.path.join(ctx.tmp, name)
    hdr = dict(timebase=tb, npre=npre, nsamp=ns, client=client, rows=8, row=3)
    if rng.random() < .3:
        hdr["eol"] = "\r\n"
    if rng.random() < .4:
        hdr["extra"] = ["a line without colon", "Dummy: a", "Dummy: b"]
    if rng.random() < .1:
        hdr["extra"] = [f"Comment {i}: " + "x" * int(rng.integers(0, 90)) for i in range(int(rng.choice([60, 200])))]
    if v22:
        sub = np.cumsum(rng.integers(1, 10**5, size=n)) + base * 10**7
        us = t0 + np.cumsum(rng.integers(0, 10**5, size=n))
        body = ljh.records22(data, sub, us)
    else:
        us4 = rng.integers(0, 250, size=n)
        ms = np.cumsum(rng.integers(1, 2000, size=n))
        body = ljh.records21(data, us4, ms)
    tb_ = rng.integers(0, 256, size=tail).astype(np.uint8).tobytes()
    with open(path, "wb") as fp:
        fp.write(ljh.header(version="2.2.0" if v22 else "2.1.0", **hdr))
        fp.write(body + tb_)
    import mass
    f = mass.LJHFile.open(path)
    npre_read = f.nPresamples
    if v22:
        model = [(int(sub[i]), int(us[i]), data[i].tobytes()) for i in range(n)]
    else:
        fs, ft = np.asarray(f.subframecount), np.asarray(f.datatimes_raw)
        model = [(int(fs[i]), int(ft[i]), data[i].tobytes()) for i in range(n)]
    return Src(path, model, ns, npre_read, tb, v22)


def verify(ctx, path, model, ns, npre, tb, mech, tail=0):
    """The file at path holds exactly the model's records, by an independent parser and by mass."""
    import mass
    p = ljh.parse(path)
    ctx.count("files_verified")
    ctx.count("records_verified", p["n"])
    if not ctx.check(p["n"] == len(model), mech + "-record-count", f"{p['n']} != {len(model)}", path=path):
        return
    ctx.check(p["leftover"] == tail, mech + "-trailing-bytes", leftover=p["leftover"])
    ctx.check(p["nsamp"] == ns, mech + "-record-length")
    if p["version"] >= (2, 2, 0):
        got = [(int(p["sub"][i]), int(p["t"][i]), p["data"][i].tobytes()) for i in range(p["n"])]
        bad = [i for i in range(len(model)) if got[i] != model[i]]
        ctx.check(not bad, mech + "-records", f"records {bad[:5]} differ", got=got[bad[0]][:2] if bad else None, want=model[bad[0]][:2] if bad else None)
    if len(model) == 0:
        return
    f = mass.LJHFile.open(path)
    ctx.check(f.nSamples == ns and f.nPulses == len(model), mech + "-mass-geometry")
    ctx.check(f.nPresamples == npre, mech + "-presamples", f"{f.nPresamples} != {npre}")
    ctx.check(f.timebase == tb, mech + "-timebase", f"{f.timebase!r} != {tb!r}")
    sub, t = np.asarray(f.subframecount), np.asarray(f.datatimes_raw)
    got = [(int(sub[i]), int(t[i]), f.read_trace(i).tobytes()) for i in range(f.nPulses)]
    ctx.check(got == model, mech + "-mass-records")


def geometry(rng):
    ns = int(rng.choice([4, 9, 30, 100, int(rng.integers(4, 200))]))
    tb = float(rng.choice([9.6e-6, 5.12e-6, 1.23456789e-5, float(rng.uniform(4e-6, 1e-4))]))
    return ns, int(rng.integers(0, ns)), tb


def selection(rng, n):
    k = int(rng.integers(6))
    if n == 0:
        return []
    if k == 0:
        return list(range(n))
    if k == 1:
        return [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    if k == 2:
        return [int(x) for x in rng.integers(0, n, size=int(rng.integers(1, 2 * n + 1)))]  # repeats
    if k == 3:
        return np.sort(rng.permutation(n)[:int(rng.integers(1, n + 1))])
    if k == 4:
        return range(int(rng.integers(0, n)), n, int(rng.integers(1, 4)))
    return [n - 1]


@monitor(250)
def history(ctx):
    """A random history of copies, appends and truncations over a pool of files."""
    from mass.core.ljh_modify import ljh_copy_traces, ljh_append_traces, ljh_truncate
    rng = ctx.rng
    ns, npre, tb = geometry(rng)
    client = [None, "DASTARD version 0.2", "Matter"][int(rng.integers(3))]
    pool = []
    for i in range(int(rng.integers(1, 4))):
        tail = int(rng.integers(1, 6 + 2 * ns)) if rng.random() < .35 else 0
        pool.append((make(ctx, f"src{i}_chan{i + 1}.ljh", ns, npre, tb, int(rng.integers(1, 30)), v22=rng.random() < .6, tail=tail, client=client, base=i), tail))
    tails = {s.path: t for s, t in pool}
    pool = [s for s, _ in pool]
    contents = {s.path: open(s.path, "rb").read() for s in pool}
    log = []
    for step in range(int(rng.integers(2, 8))):
        op = str(rng.choice(["copy", "append", "append", "trunc_n", "trunc_t", "copy"]))
        src = pool[int(rng.integers(len(pool)))]
        before = {s.path: open(s.path, "rb").read() for s in pool}
        if op == "copy":
            sel = selection(rng, len(src.model))
            dest = os.path.join(ctx.tmp, f"out{step}_chan7.ljh")
            ljh_copy_traces(src.path, dest, sel)
            new = Src(dest, [src.model[int(i)] for i in sel], ns, src.npre, tb, True)
            touched = dest
            if 0 < len(new.model) < len(src.model):
                ctx.nontrivial(op, ns, npre, tuple(int(i) for i in sel))
        elif op == "append":
            dst = pool[int(rng.integers(len(pool)))]
            everything = rng.random() < .3
            sel = None if everything else selection(rng, len(src.model))
            if not dst.v22:
                e = ctx.raises(lambda: ljh_append_traces(src.path, dst.path, sel))
                ctx.check(e is not None, "append-to-2.1-accepted")
                ctx.check(open(dst.path, "rb").read() == before[dst.path], "refused-append-changed-file")
                log.append(op + "-refused")
                continue
            # the source may be the destination itself: the records to append are those it had before
            idx = range(len(src.model)) if sel is None else sel
            added = [src.model[int(i)] for i in idx]
            ljh_append_traces(src.path, dst.path, sel) if not everything else ljh_append_traces(src.path, dst.path)
            dst.model = dst.model + added
            tails[dst.path] = 0
            new, touched = None, dst.path
            ctx.nontrivial(op, ns, len(dst.model), src is dst)
        else:
            dest = os.path.join(ctx.tmp, f"out{step}_chan9.ljh")
            n = len(src.model)
            seg = None if rng.random() < .5 else (16 + 2 * ns) * int(rng.integers(1, 8))
            if not src.v22:
                e = ctx.raises(lambda: ljh_truncate(src.path, dest, n_pulses=1))
                ctx.check(e is not None, "truncate-2.1-accepted")
                continue
            if op == "trunc_n":
                k = int(rng.integers(0, n + 4))
                ljh_truncate(src.path, dest, n_pulses=k, segmentsize=seg)
                model = src.model[:k]
            else:
                times = np.array([m[1] for m in src.model], dtype=np.int64)
                tlim = int(rng.choice(times)) + int(rng.choice([-50001, 50001, 1, -1, -10**7, 10**7]))
                ljh_truncate(src.path, dest, timestamp=tlim / 1e6, segmentsize=seg)
                if np.any(np.abs(times - tlim) == 0):
                    continue  # exactly simultaneous: inclusive or exclusive are both "by time"
                late = np.flatnonzero(times > tlim)
                model = src.model[:late[0]] if len(late) else list(src.model)
            ctx.check(ljh.parse(dest)["hbytes"] == ljh.parse(src.path)["hbytes"], "truncate-header-changed")
            new = Src(dest, model, ns, src.npre, tb, True)
            touched = dest
            if 0 < len(model) < n:
                ctx.nontrivial(op, ns, n, len(model))
        log.append(op)
        if new is not None:
            if len(new.model):
                pool.append(new)
            tails[new.path] = 0
            verify(ctx, new.path, new.model, ns, new.npre, tb, op)
        else:
            verify(ctx, dst.path, dst.model, ns, dst.npre, tb, op)
        for p, b in before.items():
            if p != touched:
                ctx.check(open(p, "rb").read() == b, "bystander-file-modified", op=op)
    for s in pool:
        verify(ctx, s.path, s.model, ns, s.npre, tb, "final", tail=tails[s.path])
    ctx.case = dict(ns=ns, npre=npre, tb=tb, client=client, history=log)


@monitor(60)
def refusals(ctx):
    """No tool replaces a file unless told to, and none destroys its own source."""
    from mass.core.ljh_modify import ljh_copy_traces, ljh_append_traces, ljh_truncate, LJHModify
    rng = ctx.rng
    ns, npre, tb = geometry(rng)
    a = make(ctx, "a_chan1.ljh", ns, npre, tb, int(rng.integers(2, 12)))
    b = make(ctx, "b_chan1.ljh", ns, npre, tb, int(rng.integers(2, 12)), base=1)
    c = make(ctx, "c_chan1.ljh", ns + int(rng.integers(1, 4)), npre, tb, 3, base=2)
    d = make(ctx, "d_chan1.ljh", ns, npre, tb, 4, v22=False, base=3)
    link = os.path.join(ctx.tmp, "link_chan1.ljh")
    os.symlink(a.path, link)
    raw = {s.path: open(s.path, "rb").read() for s in (a, b, c, d)}

    def unchanged(mech):
        for p, r in raw.items():
            ctx.check(open(p, "rb").read() == r, mech, path=os.path.basename(p))

    def refused(mech, func):
        ctx.check(ctx.raises(func) is not None, mech + "-accepted")
        unchanged(mech + "-changed-a-file")
        ctx.count("refusals")
    refused("copy-existing", lambda: ljh_copy_traces(a.path, b.path, [0]))
    refused("copy-existing-explicit", lambda: ljh_copy_traces(a.path, b.path, [0], overwrite=False))
    refused("copy-onto-self", lambda: ljh_copy_traces(a.path, a.path, [0]))
    refused("copy-onto-self-overwrite", lambda: ljh_copy_traces(a.path, a.path, [0], overwrite=True))
    refused("copy-onto-link-overwrite", lambda: ljh_copy_traces(a.path, link, [0], overwrite=True))
    refused("truncate-onto-self", lambda: ljh_truncate(a.path, a.path, n_pulses=1))
    refused("truncate-onto-link", lambda: ljh_truncate(link, a.path, n_pulses=1))
    refused("truncate-no-criterion", lambda: ljh_truncate(a.path, os.path.join(ctx.tmp, "o_chan1.ljh")))
    refused("truncate-two-criteria", lambda: ljh_truncate(a.path, os.path.join(ctx.tmp, "o_chan1.ljh"), n_pulses=1, timestamp=1.))
    refused("append-other-length", lambda: ljh_append_traces(c.path, a.path))
    refused("append-longer-destination", lambda: ljh_append_traces(a.path, c.path))
    refused("append-longer-destination", lambda: ljh_append_traces(a.path, c.path, [0]))
    refused("append-to-2.1", lambda: ljh_append_traces(a.path, d.path))
    refused("modify-existing", lambda: LJHModify(a.path, b.path, lambda x: x))
    refused("modify-self", lambda: LJHModify(a.path, a.path, lambda x: x, overwrite=True))
    sel = [len(a.model) - 1, 0]
    ljh_copy_traces(a.path, b.path, sel, overwrite=True)
    verify(ctx, b.path, [a.model[i] for i in sel], ns, a.npre, tb, "overwrite")
    ctx.check(open(a.path, "rb").read() == raw[a.path], "overwrite-changed-source")
    ctx.nontrivial(ns, npre, len(a.model))
    ctx.case = dict(ns=ns, npre=npre, n=len(a.model))


@monitor(60)
def modify(ctx):
    """Transforming records in place keeps header, times and count; the callback sees each record once, in order."""
    from mass.core.ljh_modify import LJHModify
    rng = ctx.rng
    ns, npre, tb = geometry(rng)
    v22 = rng.random() < .6
    a = make(ctx, "a_chan1.ljh", ns, npre, tb, int(rng.integers(1, 25)), v22=v22)
    raw = open(a.path, "rb").read()
    out = os.path.join(ctx.tmp, "z_chan1.ljh")
    over = rng.random() < .5
    if over:
        shutil.copy(a.path, out)
        with open(out, "ab") as fp:
            fp.write(b"junk" * 1000)
    seen = []

    def cb(rec):
        seen.append(np.array(rec))
        return (0xffff - rec).astype(np.uint16)
    LJHModify(a.path, out, cb, overwrite=over)
    pa, po = ljh.parse(a.path), ljh.parse(out)
    ctx.same(np.array(seen), pa["data"], "callback-sequence")
    ctx.check(pa["hbytes"] == po["hbytes"], "modify-header")
    ctx.same(po["sub"], pa["sub"], "modify-subframe")
    ctx.same(po["t"], pa["t"], "modify-time")
    ctx.same(po["data"], 0xffff - pa["data"], "modify-data")
    ctx.check(po["leftover"] == 0, "modify-leftover")
    ctx.check(open(a.path, "rb").read() == raw, "modify-source-changed")
    ctx.count("records_transformed", len(seen))
    ctx.nontrivial(ns, npre, len(seen), v22)
    ctx.case = dict(ns=ns, npre=npre, n=len(seen), v22=v22)


def script(name):
    return os.path.join(os.environ["VERIF_TREE"], "bin", name)


@monitor(24)
def merge_script(ctx):
    """ljh_merge: the output is the concatenation of the inputs in name order."""
    rng = ctx.rng
    ns, npre, tb = geometry(rng)
    k = int(rng.integers(1, 4))
    v22 = bool(rng.random() < .7)
    srcs = []
    for i in range(k):
        tail = int(rng.integers(1, 6 + 2 * ns)) if rng.random() < .4 else 0
        srcs.append(make(ctx, f"part{i}_chan5.ljh", ns, npre, tb, int(rng.integers(1, 15)), v22=v22 or (i and rng.random() < .5), base=i, tail=tail))
    raw = {s.path: open(s.path, "rb").read() for s in srcs}
    cmd = [sys.executable, script("ljh_merge")]
    out = os.path.join(ctx.tmp, "merged_chan5.ljh")
    exists = rng.random() < .5
    force = rng.random() < .5
    if exists:
        make(ctx, "merged_chan5.ljh", ns, npre, tb, 3, base=9)
    old = open(out, "rb").read() if exists else None
    if force:
        cmd.append("--force")
    cmd.append(os.path.join(ctx.tmp, "part*_chan5.ljh"))
    r = subprocess.run(cmd, capture_output=True, check=False, cwd=ctx.tmp)
    ctx.case = dict(k=k, v22=v22, exists=exists, force=force, rc=r.returncode)
    for p, b in raw.items():
        ctx.check(open(p, "rb").read() == b, "merge-source-changed")
    if exists and not force:
        ctx.check(r.returncode != 0 and open(out, "rb").read() == old, "merge-overwrote-without-force")
    else:
        if ctx.check(r.returncode == 0, "merge-failed", r.stderr.decode()[-500:]):
            tail = ljh.parse(out)["leftover"] if k == 1 else 0  # a single file is copied verbatim
            verify(ctx, out, sum((s.model for s in srcs), []), ns, srcs[0].npre, tb, "merge", tail=tail)
            ctx.nontrivial(ns, k, v22, len(srcs[0].model))
    # A second merge whose pattern also matches the earlier output never loses or duplicates records
    if rng.random() < .5 and os.path.exists(out):
        before = open(out, "rb").read()
        r = subprocess.run([sys.executable, script("ljh_merge"), "--force", os.path.join(ctx.tmp, "*_chan5.ljh")], capture_output=True, check=False, cwd=ctx.tmp)
        for p, b in raw.items():
            ctx.check(open(p, "rb").read() == b, "remerge-source-changed")
        if r.returncode == 0:
            verify(ctx, out, sum((s.model for s in srcs), []), ns, srcs[0].npre, tb, "remerge")
        else:
            ctx.check(open(out, "rb").read() == before, "refused-remerge-changed-output")
    ctx.count("merge_runs")


@monitor(16)
def truncate_script(ctx):
    """ljh_truncate: one truncated output per channel, sources untouched."""
    rng = ctx.rng
    ns, npre, tb = geometry(rng)
    chans = sorted(int(c) for c in rng.choice(np.arange(1, 30), size=int(rng.integers(1, 4)), replace=False))
    srcs = {c: make(ctx, f"run_chan{c}.ljh", ns, npre, tb, int(rng.integers(3, 15)), base=i) for i, c in enumerate(chans)}
    raw = {s.path: open(s.path, "rb").read() for s in srcs.values()}
    k = int(rng.integers(0, 12))
    cmd = [sys.executable, script("ljh_truncate")]
    if rng.random() < .5:
        cmd += ["--npulses", str(k)]
        want = {c: s.model[:k] for c, s in srcs.items()}
    else:
        tlim = min(s.model[-1][1] for s in srcs.values()) - int(rng.integers(0, 200000)) * 2 + 1
        tlim_s = f"{tlim // 1000000}.{tlim % 1000000:06d}"
        cmd += ["--timestamp", tlim_s]
        if any(abs(m[1] - tlim) <= 0 for s in srcs.values() for m in s.model):
            return
        want = {c: [m for m in s.model if m[1] <= tlim] for c, s in srcs.items()}
    cmd += [os.path.join(ctx.tmp, "run"), "short"]
    r = subprocess.run(cmd, capture_output=True, check=False, cwd=ctx.tmp)
    ctx.check(r.returncode == 0, "truncate-script-failed", r.stderr.decode()[-500:])
    for c, s in srcs.items():
        verify(ctx, os.path.join(ctx.tmp, f"run_short_chan{c}.ljh"), want[c], ns, s.npre, tb, "truncate-script")
        ctx.check(open(s.path, "rb").read() == raw[s.path], "truncate-script-source")
    ctx.count("truncate_runs")
    ctx.nontrivial(ns, tuple(chans), k)
    ctx.case = dict(chans=chans, k=k, cmd=cmd[2:4])
