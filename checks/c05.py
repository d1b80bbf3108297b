"""C05: cut flags follow the documented set algebra through any history."""
import os

import numpy as np

from vlib import group, ljh
from vlib.core import monitor

BUILD = "fast"
RULE = ("A case opens a TESGroup on generated files (1-3 channels, 1-90 records), then plays a random history of registering/unregistering boolean and categorical fields (up to and past the 32-bit capacity), "
        "cutting by name, number, category code, category dictionary and parameter range, clearing, and closing/reopening; after every step every field, random field combinations and category selections "
        "are compared with a set model that never uses bits. Other cases check cut_parameter, apply_cuts, auto_cuts and legacy cut descriptions. Non-trivial = histories with at least one cut that took effect.")
ASSUMPTIONS = ["field and category names are at most 64 UTF-8 bytes (the storage limit) and a name is not used for a boolean and a categorical field at once",
               "boundary values of the limits of cut_parameter: a two-element range is open, a list of ranges closed, as its docstring says"]

NAMES = ["a", "ab", "abc", "b", "my cut", "cut_1", "cut_2", "bad µ", "x" * 60, "pretrigger_rm", "peak", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9", "r1", "r2", "r3", "r4", "Ω", "A"]
CATN = ["state", "pump", "side", "phase", "t y p e", "é", "calib"]
LABELS = ["in", "out", "A", "B", "C", "uncategorized", "ON", "OFF", "1", "2", "a", "ab", "long label here", "ß"]


class Model:
    def __init__(self, chans, n):
        self.n = n
        self.chans = chans
        self.bools = {}
        self.cats = {}

    def used(self):
        return len(self.bools) + sum(c["bits"] for c in self.cats.values())

    def good(self, ch, names, cats=None):
        g = np.ones(self.n[ch], dtype=bool)
        for k in (names or list(self.bools)):
            g &= ~self.bools[k][ch]
        return g & self.sel(ch, cats)

    def bad(self, ch, names, cats=None):
        g = np.zeros(self.n[ch], dtype=bool)
        for k in (names or list(self.bools)):
            g |= self.bools[k][ch]
        return g & self.sel(ch, cats)

    def sel(self, ch, cats):
        g = np.ones(self.n[ch], dtype=bool)
        for k, lab in (cats or {}).items():
            c = self.cats[k]
            g &= c["data"][ch] == c["labels"].index(lab)
        return g

    def reg_bool(self, names):
        new = [x for x in dict.fromkeys(names) if x not in self.bools]
        if self.used() + len(new) > 32:
            return False
        for x in new:
            self.bools[x] = {ch: np.zeros(self.n[ch], dtype=bool) for ch in self.chans}
        return True

    def reg_cat(self, name, labels, default):
        if name in self.cats:
            return True
        labs = list(dict.fromkeys(str(x) for x in labels))
        default = str(default)
        if default in labs:
            labs.remove(default)
        labs.insert(0, default)
        bits = 1
        while 2**bits < len(labs):
            bits += 1
        if self.used() + bits > 32:
            return False
        self.cats[name] = dict(labels=labs, bits=bits, data={ch: np.zeros(self.n[ch], dtype=int) for ch in self.chans})
        return True


def observe(ctx, g, m, full):
    """Compare everything the group shows with the model."""
    rng = ctx.rng
    seen = {x.decode() for x, mask in g.boolean_cut_desc if x}
    ctx.check(seen == set(m.bools), "registered-boolean-fields", f"{sorted(seen ^ set(m.bools))}")
    seenc = {x.decode() for x, mask in g.categorical_cut_desc}
    ctx.check(seenc == set(m.cats), "registered-categorical-fields", f"{sorted(seenc ^ set(m.cats))}")
    for k, c in m.cats.items():
        codes = g.cut_field_categories(k)
        ctx.check(set(codes) == set(c["labels"]) and len(set(int(v) for v in codes.values())) == len(codes), "category-codes", f"{k}: {codes}")
    for ds in g.datasets:
        ch = ds.channum
        ok = ctx.same(ds.cuts.good(), m.good(ch, None), "good-all", f"chan {ch} good()")
        ctx.same(ds.cuts.bad(), ~ds.cuts.good(), "complementary", "bad() is not the complement of good()")
        if not ok:
            return
        names = list(m.bools)
        for k in (names if full else list(rng.permutation(names)[:4])):
            k = str(k)
            ctx.same(ds.bad(k), m.bad(ch, [k]), "bad-one", f"chan {ch} bad({k!r})")
        for _ in range(3):
            if not names:
                break
            sub = [str(x) for x in rng.permutation(names)[:rng.integers(1, len(names) + 1)]]
            cats = {str(k): str(rng.choice(m.cats[k]["labels"])) for k in rng.permutation(list(m.cats))[:rng.integers(0, len(m.cats) + 1)]} if m.cats else {}
            ctx.same(ds.good(*sub, **cats), m.good(ch, sub, cats), "good-combination", f"good({sub},{cats})")
            ctx.same(ds.bad(*sub, **cats), m.bad(ch, sub, cats), "bad-combination", f"bad({sub},{cats})")
            ctx.same(ds.good(**cats), m.good(ch, None, cats), "good-category", f"good({cats})")
            if cats:
                ctx.same(ds.cuts.select_category(**cats), m.sel(ch, cats), "select-category", f"{cats}")
            if full:
                fields = sub + list(cats)
                cm = ds.cuts.cut_mask(*fields)
                ctx.check(set(cm.dtype.names) == set(fields), "cut-mask-fields", f"{cm.dtype.names}")
                for k in sub:
                    ctx.same(cm[k], m.good(ch, [k]), "cut-mask-bool", k)
                for k in cats:
                    codes = g.cut_field_categories(k)
                    want = np.array([int(codes[m.cats[k]["labels"][i]]) for i in m.cats[k]["data"][ch]], dtype=np.int64)
                    ctx.same(cm[k].astype(np.int64), want, "cut-mask-category", k)
        for k, c in m.cats.items():
            codes = g.cut_field_categories(k)
            want = np.array([int(codes[c["labels"][i]]) for i in c["data"][ch]], dtype=np.int64)
            ctx.same(ds.cuts.category_codes(k).astype(np.int64), want, "category-codes-values", f"chan {ch} {k}")
            tot = np.zeros(m.n[ch], dtype=int)
            for lab in c["labels"]:
                tot += ds.cuts.select_category(**{k: lab})
            ctx.same(tot, np.ones(m.n[ch], dtype=int), "category-partition", f"labels of {k} do not partition the records")


def random_mask(rng, n):
    k = int(rng.integers(6))
    if k == 0:
        return np.zeros(n, dtype=bool)
    if k == 1:
        return np.ones(n, dtype=bool)
    if k == 2:
        m = np.zeros(n, dtype=bool)
        m[rng.integers(n)] = True
        return m
    return rng.random(n) < rng.uniform(0.05, 0.9)


def play(ctx, steps, full_every=6):
    import mass
    rng = ctx.rng
    chans = sorted(int(x) for x in rng.choice(np.arange(1, 30), size=int(rng.integers(1, 4)), replace=False))
    n = {c: int(rng.choice([1, 2, 7, 33, 90])) for c in chans}
    f = group.make_files(ctx, chans, n=n, nnoise=0, ns=20, npre=6)
    g = group.open_group(f, noise=False)
    m = Model(chans, n)
    m.reg_bool([x.decode() for x, mask in g.boolean_cut_desc if x])
    for c in list(g.categorical_cut_desc):
        codes = g.cut_field_categories(c["name"].decode())
        labs = [k for k, v in sorted(codes.items(), key=lambda t: t[1])]
        m.reg_cat(c["name"].decode(), labs, labs[0])
    ctx.case.update(chans=chans, n=n)
    hist = ctx.case.setdefault("history", [])
    effect = 0
    observe(ctx, g, m, True)
    for step in range(steps):
        op = str(rng.choice(["reg", "reg", "unreg", "regcat", "unregcat", "cut", "cut", "cut", "cut", "num", "code", "code", "dict", "dict", "clear", "clearall", "reopen", "unknown", "conflict", "param", "full"],
                            p=np.array([6, 6, 5, 5, 3, 10, 8, 8, 8, 6, 6, 6, 6, 6, 4, 1, 4, 2, 2, 5, 2]) / 109))
        ds = g.datasets[int(rng.integers(len(g.datasets)))]
        ch = ds.channum
        if op in ("reg", "full"):
            k = int(rng.integers(1, 5)) if op == "reg" else 20
            names = [str(x) for x in rng.choice([x for x in NAMES if x not in m.cats], size=k)]
            hist.append((op, names))
            if m.reg_bool(names):
                g.register_boolean_cut_fields(*names)
                ctx.count("register")
            else:
                ctx.check(ctx.raises(lambda: g.register_boolean_cut_fields(*names), ValueError) is not None, "capacity", "registering past 32 bits did not raise")
                ctx.count("register-refused")
        elif op == "unreg" and m.bools:
            names = [str(x) for x in rng.permutation(list(m.bools))[:rng.integers(1, 4)]]
            hist.append((op, names))
            if rng.random() < 0.1:
                bad = names + ["not there"]
                ctx.check(ctx.raises(lambda: g.unregister_boolean_cut_fields(*bad), KeyError) is not None, "unregister-unknown", "no KeyError")
            else:
                g.unregister_boolean_cut_fields(*names)
                for k in names:
                    m.bools.pop(k)
                ctx.count("unregister")
        elif op == "regcat":
            name = str(rng.choice([x for x in CATN if x not in m.bools]))
            labs = [str(x) for x in rng.choice(LABELS, size=int(rng.integers(1, 10)))]
            if rng.random() < 0.2:
                labs = [f"s{i}" for i in range(int(rng.integers(2, 70)))]
            if rng.random() < 0.2:
                labs = [1, 2, 3, 4]
            default = rng.choice([str(labs[-1]), "uncategorized", "dflt"])
            hist.append((op, name, labs, str(default)))
            had = name in m.cats
            if m.reg_cat(name, labs, default):
                g.register_categorical_cut_field(name, tuple(labs) if rng.random() < 0.5 else labs, default=str(default))
                ctx.count("register-category")
                if not had:
                    ctx.check(min(g.cut_field_categories(name).values()) == 0 and g.cut_field_categories(name)[str(default)] == 0, "default-code", "default category is not code 0")
            else:
                ctx.check(ctx.raises(lambda: g.register_categorical_cut_field(name, labs, default=str(default)), ValueError) is not None, "capacity", "registering past 32 bits did not raise")
        elif op == "unregcat" and m.cats:
            name = str(rng.choice(list(m.cats)))
            hist.append((op, name))
            g.unregister_categorical_cut_field(name)
            m.cats.pop(name)
            ctx.count("unregister-category")
        elif op in ("cut", "num", "param") and m.bools:
            name = str(rng.choice(list(m.bools)))
            mask = random_mask(rng, m.n[ch])
            hist.append((op, ch, name, int(mask.sum())))
            if op == "cut":
                ds.cuts.cut(name, mask.copy())
            elif op == "param":
                val = np.where(mask, 5.0, 0.0)
                ds.cuts.cut_parameter(val, (None, 1.0), name)
            else:
                i = int(np.flatnonzero([x["name"].decode() == name for x in g.boolean_cut_desc])[0])
                ds.cuts.cut(i, mask)
            m.bools[name][ch] |= mask
            effect += int(mask.sum())
            ctx.count("cut")
        elif op == "code" and m.cats:
            name = str(rng.choice(list(m.cats)))
            codes = g.cut_field_categories(name)
            idx = rng.integers(0, len(m.cats[name]["labels"]), size=m.n[ch])
            hist.append((op, ch, name))
            if rng.random() < .4:  # values that are no category's code must not reach other fields
                try:
                    ds.cuts.cut(name, rng.integers(0, 2**int(rng.integers(1, 32)), size=m.n[ch]).astype(np.uint32))
                except ValueError:
                    pass
                for k in m.bools:
                    ctx.same(ds.bad(k), m.bad(ch, [k]), "values of another field", f"chan {ch} bad({k!r}) after values without a category in {name}")
                for k in m.cats:
                    if k != name:
                        for lab in m.cats[k]["labels"]:
                            ctx.same(ds.cuts.select_category(**{k: lab}), m.sel(ch, {k: lab}), "values of another field", f"chan {ch} {k}={lab} after values without a category in {name}")
                ctx.count("values_without_category")
            ds.cuts.cut(name, np.array([codes[m.cats[name]["labels"][i]] for i in idx], dtype=np.uint32))
            m.cats[name]["data"][ch] = idx
            ctx.count("cut-category-codes")
        elif op in ("dict", "conflict") and m.cats:
            name = str(rng.choice(list(m.cats)))
            c = m.cats[name]
            idx = rng.integers(0, len(c["labels"]), size=m.n[ch])
            use = [int(i) for i in rng.permutation(len(c["labels"]))[:rng.integers(1, len(c["labels"]) + 1)]]
            d = {c["labels"][i]: idx == i for i in use}
            hist.append((op, ch, name, [c["labels"][i] for i in use]))
            if op == "conflict" and len(use) > 1:
                d[c["labels"][use[0]]] = d[c["labels"][use[0]]].copy()
                d[c["labels"][use[0]]][0] = True
                d[c["labels"][use[1]]][0] = True
                ctx.check(ctx.raises(lambda: ds.cuts.cut_categorical(name, d), ValueError) is not None, "category-conflict", "overlapping categories were accepted")
            else:
                ds.cuts.cut_categorical(name, d)
                c["data"][ch] = np.where(np.isin(idx, use), idx, 0)
                ctx.count("cut-category-dict")
        elif op == "clear" and m.bools:
            names = [str(x) for x in rng.permutation(list(m.bools))[:rng.integers(1, 5)]]
            hist.append((op, ch, names))
            ds.cuts.clear_cut(*names)
            for k in names:
                m.bools[k][ch][:] = False
        elif op == "clearall":
            hist.append((op, ch))
            if rng.random() < 0.5:
                ds.cuts.clear_cut()
            else:
                ds.clear_cuts()
            for k in m.bools:
                m.bools[k][ch][:] = False
        elif op == "reopen":
            hist.append((op,))
            group.close_group(g)
            g = group.open_group(f, noise=False)
            ctx.count("reopen")
        elif op == "unknown":
            hist.append((op,))
            one = np.ones(m.n[ch], dtype=bool)
            free = [i for i, x in enumerate(g.boolean_cut_desc) if not x["name"]]
            tests = [lambda: ds.cuts.cut("not there", one), lambda: ds.cuts.good("not there"), lambda: ds.cuts.clear_cut("not there"), lambda: ds.cuts.cut_mask("not there"),
                     lambda: ds.cuts.select_category(nothere="x"), lambda: ds.cuts.cut_parameter(np.zeros(m.n[ch]), (1, 2), "not there"), lambda: ds.cuts.cut(32, one), lambda: ds.cuts.cut(-1, one)]
            if free:
                tests.append(lambda: ds.cuts.cut(free[0], one))
            if m.cats:
                k = next(iter(m.cats))
                tests.append(lambda: ds.cuts.good(**{k: "no such label"}))
            for i, t in enumerate(tests):
                ctx.check(ctx.raises(t, (ValueError, KeyError)) is not None, "unknown-field", f"use of an unregistered field was accepted (test {i})")
        else:
            continue
        observe(ctx, g, m, step % full_every == 0)
        ctx.count("steps")
        if ctx.violations:
            break
    group.close_group(g)
    if not ctx.violations:
        g = group.open_group(f, noise=False)
        observe(ctx, g, m, True)
        group.close_group(g)
    if effect:
        ctx.nontrivial(tuple(chans), tuple(map(str, hist)))


@monitor(60, 700)
def history(ctx):
    play(ctx, int(ctx.rng.integers(10, 45)))


@monitor(6, 60)
def long_history(ctx):
    play(ctx, 150, full_every=20)


def ref_allowed(x, allowed):
    """True where the value is allowed, by the docstring."""
    if np.size(allowed[0]) == 2 or (isinstance(allowed[0], str) and allowed[0] == "invert"):
        ok = np.zeros(len(x), dtype=bool)
        inv = False
        for el in allowed:
            if isinstance(el, str):
                inv = True
                continue
            a, b = el
            t = ~np.isnan(x)
            if a is not None:
                t &= x >= a
            if b is not None:
                t &= x <= b
            ok |= t
        return ~ok if inv else ok
    a, b = allowed
    ok = np.ones(len(x), dtype=bool)
    if a is not None:
        ok &= x > a
    if b is not None:
        ok &= x < b
    return ok


def random_allowed(rng, x):
    pool = list(x[np.isfinite(x)][:20]) + [0, 0.0, 1, -1, 2.5]

    def pair():
        a, b = sorted(rng.choice(pool, size=2))
        r = rng.random()
        return (None if r < 0.2 else a.item() if hasattr(a, "item") else a, None if 0.2 <= r < 0.4 else b.item() if hasattr(b, "item") else b)
    k = int(rng.integers(4))
    if k <= 1:
        p = pair()
        return rng.choice([0, 1]) == 0 and list(p) or p
    lst = [pair() for _ in range(int(rng.integers(1, 4)))]
    if k == 3:
        lst.insert(int(rng.integers(len(lst) + 1)), "invert")
    return lst


@monitor(25, 300)
def parameter_ranges(ctx):
    """cut_parameter on any data and limits; earlier flags of the field and other fields stay."""
    rng = ctx.rng
    n = int(rng.choice([1, 3, 50, 90]))
    f = group.make_files(ctx, [1], n=n, nnoise=0, ns=20, npre=6)
    g = group.open_group(f, noise=False)
    ds = g.datasets[0]
    g.register_boolean_cut_fields("p", "other")
    other = random_mask(rng, n)
    ds.cuts.cut("other", other)
    acc = np.zeros(n, dtype=bool)
    for _ in range(14):
        kind = int(rng.integers(4))
        if kind == 0:
            x = rng.integers(0, 6, n).astype(np.uint16)
        elif kind == 1:
            x = rng.integers(-5, 6, n).astype(np.float32)
        else:
            x = np.round(rng.normal(0, 3, n), 1)
            if kind == 3:
                x[rng.random(n) < 0.1] = np.nan
                x[rng.random(n) < 0.1] = np.inf
                x[rng.random(n) < 0.1] = -np.inf
        al = random_allowed(rng, x.astype(float))
        ctx.case["allowed"] = str(al)
        ctx.case["x"] = x
        if al[0] is None and al[1] is None if len(al) == 2 and not np.size(al[0]) == 2 and not isinstance(al[0], str) else False:
            continue
        if rng.random() < 0.3:
            ds.cuts.clear_cut("p")
            acc[:] = False
        src = x
        if rng.random() < 0.3:
            if "scratch" in g.hdf5_file:
                del g.hdf5_file["scratch"]
            src = g.hdf5_file.create_dataset("scratch", data=x)
        field = "p"
        if rng.random() < 0.3:
            field = int(np.flatnonzero(g.boolean_cut_desc["name"] == b"p")[0])
        ds.cuts.cut_parameter(src, al, field)
        acc |= ~ref_allowed(x.astype(float), al)
        ctx.same(ds.bad("p"), acc, "cut-parameter", f"allowed={al}")
        ctx.same(ds.bad("other"), other, "other-field-disturbed")
        ctx.count("ranges")
        if acc.any() and not acc.all():
            ctx.nontrivial(str(al), x.tobytes())
        if ctx.violations:
            break
    x = np.zeros(n)
    before = ds.cuts._mask[...].copy() if hasattr(ds.cuts, "_mask") else None
    ds.cuts.cut_parameter(x, None, "p")
    if before is not None:
        ctx.same(ds.cuts._mask[...], before, "allowed-none", "allowed=None cut something")
    group.close_group(g)


PRM = {"energy": "p_energy", "pretrigger_rms": "p_pretrig_rms", "pretrigger_mean": "p_pretrig_mean", "postpeak_deriv": "p_postpeak_deriv", "pulse_average": "p_pulse_average", "peak_value": "p_peak_value"}


@monitor(40, 400)
def analysis_control(ctx):
    """apply_cuts: each parameter of an AnalysisControl cuts its own field by its own quantity."""
    import mass
    rng = ctx.rng
    chans = [1, 3]
    f = group.make_files(ctx, chans, n=int(rng.integers(2, 60)), nnoise=0, ns=60, npre=20, skew=.05)
    g = group.open_group(f, noise=False)
    g.summarize_data(_rethrow=True) if False else [ds.summarize_data() for ds in g.datasets]
    ds, ds2 = g.datasets
    ds.p_energy[:] = rng.normal(5900, 100, ds.nPulses)
    src = {k: getattr(ds, v)[:].astype(float) for k, v in PRM.items()}
    src["peak_time_ms"] = ds.p_peak_time[:] * 1e3
    src["rise_time_ms"] = ds.p_rise_time[:].astype(float) * 1e3
    src["min_value"] = (ds.p_min_value[:] - ds.p_pretrig_mean[:]).astype(float)
    src["timestamp_sec"] = ds.p_timestamp[:]
    src["timestamp_diff_sec"] = np.hstack((np.inf, np.diff(ds.p_timestamp[:])))
    src["subframecount_diff_sec"] = np.hstack((np.inf, np.diff(ds.p_subframecount[:] * ds.subframe_timebase)))
    keys = [str(k) for k in rng.permutation(list(src))[:rng.integers(1, 6)]]
    prm = {}
    for k in keys:
        v = src[k][np.isfinite(src[k])]
        lo, hi = sorted(np.quantile(v, rng.random(2)) if len(v) else (0., 1.))
        lo, hi = float(lo) - 1.3e-4 * abs(float(lo)), float(hi) + 1.7e-4 * abs(float(hi))
        prm[k] = (lo, hi) if rng.random() < 0.6 else ((None, hi) if rng.random() < 0.5 else (lo, None))
    dep = rng.random() < 0.4
    if dep:
        prm["pretrigger_mean_departure_from_median"] = (-float(rng.uniform(0.1, 2)), float(rng.uniform(0.1, 2)))
    ctx.case["prm"] = str(prm)
    ctl = mass.AnalysisControl(**prm)
    pre = random_mask(rng, ds.nPulses)
    ds.cuts.cut("timing", pre)
    ds.apply_cuts(ctl)
    tot = pre.copy()
    for k in list(src):
        want = ~ref_allowed(src[k], prm[k]) if k in prm else np.zeros(ds.nPulses, dtype=bool)
        # float32 intermediate: ignore values within rounding of a limit
        if k in prm:
            near = np.zeros(ds.nPulses, dtype=bool)
            for lim in prm[k]:
                if lim is not None:
                    near |= np.abs(src[k] - lim) <= 3e-7 * np.abs(lim)
            want = np.where(near, ds.bad(k), want)
        ctx.same(ds.bad(k), want, "apply-cuts-field", f"{k} limits {prm.get(k)}")
        tot |= want
    if dep:
        gd = ~tot
        if gd.any():
            d = ds.p_pretrig_mean[:] - np.median(ds.p_pretrig_mean[:][gd])
            ctx.same(ds.bad("pretrigger_mean_departure_from_median"), ~ref_allowed(d.astype(float), prm["pretrigger_mean_departure_from_median"]), "apply-cuts-departure")
            tot |= ds.bad("pretrigger_mean_departure_from_median")
    ctx.same(ds.bad(), tot, "apply-cuts-total")
    ctx.same(ds.bad("timing"), pre, "apply-cuts-keeps-earlier")
    ctx.check(ds2.good().all(), "other-channel-disturbed", "cutting one channel changed another")
    if tot.any():
        snap = [ds.bad(k) for k in src]
        k = keys[0]
        ds.apply_cuts(mass.AnalysisControl(pulse_average=(1e9, 2e9)), forceNew=False)
        ctx.check(all((a == ds.bad(b)).all() for a, b in zip(snap, src)), "apply-cuts-not-forced", "apply_cuts(forceNew=False) changed existing cuts")
        ctx.nontrivial(str(prm))
    ds.apply_cuts(ctl, clear=True)
    ctx.check(not ds.bad("timing").any(), "apply-cuts-clear", "clear=True kept earlier cuts")
    ctx.same(ds.bad(keys[0]), snap[list(src).index(keys[0])] if tot.any() else ds.bad(keys[0]), "apply-cuts-clear-again")
    ds.clear_cuts()
    ctx.check(ds.good().all(), "clear-cuts")
    group.close_group(g)


@monitor(16, 120)
def automatic(ctx):
    """auto_cuts: limits come from all noise records by the stated robust rule and are remembered until cleared."""
    rng = ctx.rng
    f = group.make_files(ctx, [1], n=int(rng.integers(20, 80)), nnoise=int(rng.integers(5, 60)), ns=80, npre=25, noise=float(rng.uniform(2, 8)))
    g = group.open_group(f)
    ds = g.datasets[0]
    ds.summarize_data()
    ns1, ns2 = float(rng.uniform(2, 10)), float(rng.uniform(2, 10))
    pct = float(rng.choice([50, 90, 99, 1])) if rng.random() < .5 else None
    c = ds.auto_cuts(nsigma_pt_rms=ns1, nsigma_max_deriv=ns2, **({} if pct is None else dict(pretrig_rms_percentile=pct)))
    z = f["truth"][1]["noise"].astype(float)
    rms = z[:, :25].std(axis=1)
    der = np.array([[-0.2 * r[i] - 0.1 * r[i + 1] + 0.1 * r[i + 3] + 0.2 * r[i + 4] for i in range(len(r) - 4)] for r in z])
    md = np.minimum(der[:, 2:], der[:, :-2]).max(axis=1)

    def lim(v, k):
        return np.median(v) + 1.4826 * np.median(np.abs(v - np.median(v))) * k
    ctx.close(c.cuts_prm["pretrigger_rms"][1], max(0, lim(rms, ns1), 0 if pct is None else np.percentile(ds.p_pretrig_rms[:], pct)), "auto-pretrigger-rms", rtol=1e-6)
    ctx.close(c.cuts_prm["postpeak_deriv"][1], lim(md, ns2), "auto-postpeak-deriv", rtol=1e-5, atol=1e-5)
    pk = (3 + ds.peak_samplenumber - 25) * ds.timebase * 1000
    ctx.close(c.cuts_prm["peak_time_ms"], (0, pk * 1.25), "auto-peak-time")
    ctx.close(c.cuts_prm["rise_time_ms"], (0, pk * 1.10), "auto-rise-time")
    want = ~((ds.p_pretrig_rms[:] < c.cuts_prm["pretrigger_rms"][1]) & (ds.p_postpeak_deriv[:] < c.cuts_prm["postpeak_deriv"][1]))
    ctx.same(ds.bad("pretrigger_rms", "postpeak_deriv"), want, "auto-cuts-applied")
    before = ds.bad()
    lims = {k: c.cuts_prm[k] for k in ("peak_time_ms", "rise_time_ms", "pretrigger_rms", "postpeak_deriv")}
    group.close_group(g)
    g = group.open_group(f)
    ds = g.datasets[0]
    ctx.same(ds.bad(), before, "auto-cuts-reopened")
    ctx.check(ds.saved_auto_cuts is not None and all(tuple(ds.saved_auto_cuts.cuts_prm[k]) == tuple(v) for k, v in lims.items()), "auto-limits-reopened")
    ctx.check(ds.auto_cuts() is None, "auto-not-forced", "auto_cuts ran again without forceNew")
    ctx.same(ds.bad(), before, "auto-not-forced-changed")
    ds.clear_cuts()
    ctx.check(ds.good().all() and ds.saved_auto_cuts is None, "clear-cuts")
    group.close_group(g)
    g = group.open_group(f)
    ds = g.datasets[0]
    ctx.check(ds.good().all() and ds.saved_auto_cuts is None, "clear-cuts-reopened", "cleared auto cuts came back on reopening")
    ctx.nontrivial(ns1, ns2)
    group.close_group(g)


@monitor(20, 200)
def smart(ctx):
    """smart_cuts: the pulses far (in the robust Mahalanobis sense) from the typical ones, by the threshold of the latest computation."""
    import sklearn.covariance
    rng = ctx.rng
    chans = [1, 3, 8][:int(rng.integers(1, 4))]
    f = group.make_files(ctx, chans, n=int(rng.integers(60, 160)), nnoise=0, ns=24, npre=8)
    g = group.open_group(f, noise=False)
    g.summarize_data()
    cols = ("p_pretrig_mean", "p_pretrig_rms", "p_min_value", "p_postpeak_deriv")
    other = {}
    for ds in g:
        for k in cols:
            v = rng.normal(1000, float(rng.choice([1, 10, 100])), ds.nPulses)
            far = rng.random(ds.nPulses) < .1
            getattr(ds, k)[:] = v + far * rng.normal(0, 8, ds.nPulses) * v.std()
        other[ds.channum] = rng.random(ds.nPulses) < .2
        ds.cuts.cut("pretrigger_rms", other[ds.channum])

    def want(ds, thr, ntr):
        m = np.array([getattr(ds, k)[:] for k in cols]).T
        d2 = sklearn.covariance.MinCovDet(random_state=0).fit(m[:ntr]).mahalanobis(m)
        ctx.need(np.min(np.abs(d2 / thr ** 2 - 1)) > 1e-6)
        return d2 > thr ** 2

    thr, ntr, done = None, None, {}
    hist = []
    for step in range(int(rng.integers(2, 5))):
        t = float(rng.choice([2., 3., 5., 10., 20.]))
        n = int(rng.choice([40, 60, 10000]))
        force = bool(rng.random() < .5)
        how = str(rng.choice(["group", "channel"]))
        hist.append((t, n, force, how))
        kw = dict(threshold=t, n_trainings=n)
        if t == 10. and n == 10000:
            kw = {}
        if how == "group":
            g.smart_cuts(forceNew=force, **kw)
        else:
            for ds in g:
                ds.smart_cuts(forceNew=force, **kw)
        for ds in g:
            c = ds.channum
            if force or not done.get(c, np.zeros(1)).any():
                done[c] = want(ds, t, n)
            ctx.case["history"] = hist
            ctx.same(np.asarray(ds.cuts.bad("smart_cuts")), done[c], "smart-cuts")
            ctx.same(np.asarray(ds.cuts.bad("pretrigger_rms")), other[c], "smart-cuts-others")
            ctx.same(np.asarray(ds.good()), ~(done[c] | other[c]), "smart-cuts-good")
        if rng.random() < .3:
            group.close_group(g)
            g = group.open_group(f, noise=False)
    ctx.check(len(list(g)) == len(chans), "smart-cuts-channel-lost", f"{g.why_chan_bad}")
    ctx.nontrivial(tuple(hist))
    group.close_group(g)


@monitor(6, 40)
def legacy(ctx):
    """Signed masks and version-1 cut descriptions keep their flags when opened."""
    import h5py
    rng = ctx.rng
    n = 40
    f = group.make_files(ctx, [2], n=n, nnoise=0, ns=20, npre=6)
    g = group.open_group(f, noise=False)
    ds = g.datasets[0]
    names = [x.decode() for x in g.boolean_cut_desc["name"] if x]
    g.register_boolean_cut_fields(*[f"u{i}" for i in range(31 - len(names))])     # reach bit 31
    names = [x.decode() for x in g.boolean_cut_desc["name"] if x]
    truth = {}
    for k in names:
        truth[k] = random_mask(rng, n)
        ds.cuts.cut(k, truth[k])
    cal = rng.integers(0, 2, n)
    ds.cuts.cut_categorical("calibration", {"in": cal == 0, "out": cal == 1})
    h = g.hdf5_file.filename
    group.close_group(g)
    v1 = rng.random() < 0.5
    with h5py.File(h, "r+") as fp:
        m = fp["chan2/cuts/mask"][...]
        del fp["chan2/cuts/mask"]
        fp["chan2/cuts/mask"] = m.view(np.int32)
        if v1:
            fp.attrs["cut_num_used_bits"] = np.uint32(32)
            del fp.attrs["cut_used_bit_flags"]
            c = fp.attrs["cut_categorical_field_desc"]
            c1 = np.zeros(len(c), dtype=[("name", "S64"), ("default", "S64"), ("mask", np.uint32)])
            c1["name"], c1["mask"] = c["name"], c["mask"]
            fp.attrs["cut_categorical_field_desc"] = c1
            fp.attrs["cut_format_ver"] = b"1"
    ctx.case["v1"] = v1
    g = group.open_group(f, noise=False)
    ds = g.datasets[0]
    for k in names:
        ctx.same(ds.bad(k), truth[k], "legacy-mask", k)
    ctx.same(ds.cuts.select_category(calibration="out"), cal == 1, "legacy-category")
    ctx.check(ctx.raises(lambda: g.register_boolean_cut_fields("one more"), ValueError) is not None, "legacy-capacity")
    g.unregister_boolean_cut_fields(names[-1])
    g.register_boolean_cut_fields("one more")
    ctx.check(ds.good("one more").all(), "legacy-reused-bit", "a new field inherited the cuts of an unregistered one")
    ctx.nontrivial(v1, ctx.index)
    group.close_group(g)
