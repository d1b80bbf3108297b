"""C25: OFF-channel recipes, cuts and selections are consistent views of the data."""
import os

import numpy as np

from vlib import off as vo
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case builds random recipe graphs (chains, renamed ingredients, recipe classes, temporary functions, cuts made of cuts) and evaluates them over recorded columns through every kind of selection (whole channel, slice, list of slices, one or several states, "
        "any cut or its inverse, lists of attributes, saved and reloaded recipe books, learned corrections, HDF5 exports); the oracle applies the same functions to the generated records row by row. Non-trivial = a chain of two recipes or a selection that leaves some but not all rows.")
ASSUMPTIONS = ["recipes act on each record separately (as all built-in ones do); functions that mix records are not covered by 'selecting commutes with computing'",
               "a recipe that is overwritten is not used by recipes that were added before"]

COLS = ["filtValue", "pretriggerMean", "pulseMean", "derivativeLike", "residualStdDev"]


def fpool(rng):
    """(number of arguments, callable, numpy oracle)"""
    from mass.off import recipe_classes as rc
    a, b = float(rng.uniform(.5, 3)), float(rng.uniform(-50, 50))
    B = rng.normal(size=(3, 2))
    return [(1, rc.Subtract(b), lambda x: x - b), (1, rc.Add(b), lambda x: x + b), (1, rc.SubtractThenScale(b, a), lambda x: a * (x - b)),
            (2, rc.DivideTwo(), lambda x, y: x / y), (2, lambda u, v: u + a * v, lambda x, y: x + a * y), (1, lambda q: np.sqrt(np.abs(q)) + b, lambda x: np.sqrt(np.abs(x)) + b),
            (3, lambda one, two, three: one - two * a + three, lambda x, y, z: x - y * a + z), (1, abs_plus, lambda x: np.abs(x) + 1)], (rc.MatMulAB_FixedB(B), lambda c: np.matmul(c, B))


def abs_plus(x):
    return np.abs(x) + 1


def opt(x, y=2.0):
    return x * y


class Graph:
    """Recipes and what they mean, for a book or channel."""

    def __init__(self, rng, names):
        self.rng = rng
        self.val = {}      # name -> function(records) -> values
        for n in names:
            self.val[n] = lambda r, n=n: r[n]
        self.base = list(names)
        self.log = []
        self.depth = {n: 0 for n in names}

    def pick(self, k):
        keys = [n for n in self.val if "cut" not in n and not n.startswith("mat")]
        # chains are made by preferring recent recipes
        p = np.arange(1, len(keys) + 1, dtype=float)
        return [str(n) for n in self.rng.choice(keys, k, replace=False, p=p / p.sum())]

    def add(self, book_add, name, overwrite=False):
        pool, _ = fpool(self.rng)
        n, f, g = pool[int(self.rng.integers(len(pool)))]
        ing = self.pick(n)
        vals = [self.val[i] for i in ing]
        if self.rng.random() < .25 and n == 1:
            # learn the names from the signature
            ns = {}
            exec(f"def fun({ing[0]}):\n    return {ing[0]} * 2.5 - 1", ns)
            book_add(name, ns["fun"], None, overwrite)
            self.val[name] = lambda r, v=vals[0]: v(r) * 2.5 - 1
        elif self.rng.random() < .1 and n == 1:
            book_add(name, opt, ing, overwrite)
            self.val[name] = lambda r, v=vals[0]: v(r) * 2.0
        else:
            book_add(name, f, ing, overwrite)
            self.val[name] = lambda r, g=g, vals=vals: g(*[v(r) for v in vals])
        self.depth[name] = 1 + max(self.depth.get(i, 1) for i in ing)
        self.log.append((name, ing))

    def add_cut(self, cut_add, name, records):
        others = [n for n in self.val if n.startswith("cut")]
        k = self.rng.random()
        if k < .3 and len(others) >= 2:
            a, b = (str(x) for x in self.rng.choice(others, 2, replace=False))
            cut_add(name, lambda u, v: np.logical_and(u, v), [a, b])
            va, vb = self.val[a], self.val[b]
            self.val[name] = lambda r: va(r) & vb(r)
            self.log.append((name, "and", a, b))
            return
        ing = self.pick(1)
        v = self.val[ing[0]]
        t = float(np.quantile(v(records).astype(float), self.rng.choice([.1, .5, .8])))
        if k < .6:
            cut_add(name, lambda x: x > t, ing)
            self.val[name] = lambda r: v(r) > t
        else:
            w = self.pick(1)
            vw = self.val[w[0]]
            t2 = float(np.quantile(vw(records).astype(float), self.rng.choice([.3, .9])))
            if w == ing:
                cut_add(name, lambda x: x < t2, ing)
                self.val[name] = lambda r: v(r) < t2
            else:
                cut_add(name, lambda x, y: np.logical_and(x > t, y < t2), [ing[0], w[0]])
                self.val[name] = lambda r: (v(r) > t) & (vw(r) < t2)
        self.log.append((name, "cut", ing))


@monitor(250, 2500)
def books(ctx):
    """RecipeBook by itself."""
    from mass.off.util import RecipeBook
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    r = vo.records(rng, n)
    names = list(r.dtype.names)
    cls = type("Prop", (), {"getAttr": lambda self, name, inds: ("asked", name)}) if rng.random() < .5 else None
    coefs = np.dtype([("head", "V36"), ("coefs", "<f4", (3,))])
    book = RecipeBook(names + ["coefs"], cls, coefs)
    g = Graph(rng, COLS)
    ctx.case = dict(n=n, graph=g.log)
    create = bool(rng.random() < .8)
    for i in range(int(rng.integers(2, 12))):
        if rng.random() < .3:
            g.add_cut(lambda nm, f, ing: book.add(nm, f, ing), f"cut{i}", r)
        else:
            g.add(lambda nm, f, ing, ov: book.add(nm, f, ing, createProperty=create), f"r{i}")
    assert r.dtype.itemsize == 36 + 12
    _, (mm, mo) = fpool(rng)
    book.add("matprod", mm, ["coefs"])
    g.val["matprod"] = lambda q: mo(np.stack([q[c] for c in ("pulseMean", "derivativeLike", "filtValue")], axis=1))

    def verify(b, what):
        rows = slice(*sorted(int(x) for x in rng.integers(0, n + 1, 2))) if rng.random() < .5 else slice(None)
        sub = r[rows]
        for name, f in g.val.items():
            if name in COLS:
                continue
            want = f(sub)
            ctx.same(np.asarray(b.craft(name, sub)), want, what + " recipe value")
            if name.startswith("cut"):
                for k in range(1, 5):
                    ctx.same(b.craft("!" * k + name, sub), want if k % 2 == 0 else ~want, what + " inverted cut")
    verify(book, "crafted")
    ctx.same(r, r.copy(), "records")
    # temporary functions leave the book alone
    before = list(book.keys())
    nm = g.pick(2)
    ns = {}
    exec(f"def fun({nm[0]}, {nm[1]}):\n    return {nm[0]} - {nm[1]}", ns)
    ctx.same(book.craft(ns["fun"], r), g.val[nm[0]](r) - g.val[nm[1]](r), "crafting a function")
    ctx.check(list(book.keys()) == before and len(book) == len(before), "temporary function stored", f"{list(book.keys())}")
    have = [k for k in book.keys() if k.startswith("r")]
    if have:
        dup = str(rng.choice(have))
        ctx.check(ctx.raises(lambda: book.add(dup, abs_plus, [COLS[0]]), AssertionError) is not None, "duplicate name refused", dup)
        verify(book, "after refusal")
        book.add(dup, abs_plus, [COLS[0]], overwrite=True)
        ctx.same(book.craft(dup, r), np.abs(r[COLS[0]]) + 1, "overwritten recipe")
        g.val[dup] = lambda q: np.abs(q[COLS[0]]) + 1
        for later in [e[0] for e in g.log if dup in e[1:] or (len(e) > 1 and isinstance(e[1], list) and dup in e[1])]:
            g.val.pop(later, None)
        dead = [k for k in g.val if k not in COLS and k != dup and k != "matprod"]
        for k in dead:
            g.val.pop(k)
    ctx.check(ctx.raises(lambda: book.add("new", abs_plus, ["nothing"]), AssertionError) is not None, "unknown ingredient refused", "")
    ctx.check(ctx.raises(lambda: book.add("!new", abs_plus, [COLS[0]]), AssertionError) is not None, "name with ! refused", "")
    ctx.check(ctx.raises(lambda: book.craft("nosuch", r)) is not None, "unknown recipe refused", "")
    ctx.check(ctx.raises(lambda: book.craft("cutnosuch", r)) is not None, "unknown cut refused", "")
    ctx.check("new" not in book.keys() and "!new" not in book.keys(), "refused recipe stored", "")
    if cls is not None and create and have:
        ctx.check(getattr(cls(), have[0]) == ("asked", have[0]), "property of a recipe", "")
    if cls is None:
        p = os.path.join(ctx.tmp, "book")
        book.to_file(p)
        ctx.check(ctx.raises(lambda: book.to_file(p)) is not None, "existing file refused", "")
        book.to_file(p, overwrite=True)
        b2 = RecipeBook.from_file(p)
        ctx.check(list(b2.keys()) == list(book.keys()), "reloaded names", "")
        verify(b2, "reloaded")
    # a recipe may take the name of a recorded column, which it then hides
    shadow, hid = RecipeBook(names + ["coefs"], None, coefs), str(rng.choice(COLS))
    shadow.add(hid, lambda x: -2 * x, [hid])
    ctx.same(shadow.craft(hid, r), -2 * r[hid], "recipe named as a column")
    shadow.add("after", abs_plus, [hid])
    ctx.same(shadow.craft("after", r), np.abs(-2 * r[hid]) + 1, "recipe using one named as a column")
    ctx.nontrivial(max(g.depth.values()), len(g.log), n > 1)


def rows_of(ds_labels, lab, states):
    if states is None:
        return np.arange(len(lab))
    if isinstance(states, str):
        states = [states]
    return np.hstack([np.array([], int)] + [np.nonzero(lab == s)[0] for s in states])


def slices(rng, n, k):
    cuts = np.sort(rng.integers(0, n + 1, 2 * k))
    s = [slice(int(a), int(b)) for a, b in zip(cuts[::2], cuts[1::2])]
    rng.shuffle(s)
    return s


def random_sel(rng, n, labels):
    """A selection argument and the rows it means (given the label of each row later)."""
    k = int(rng.integers(7))
    if k == 0:
        return None, None, "all"
    if k == 1:
        a, b = sorted(int(x) for x in rng.integers(0, n + 1, 2))
        step = int(rng.choice([1, 1, 2, 3]))
        s = slice(a, b) if step == 1 else slice(a, b, step)
        return s, np.arange(n)[s], "slice"
    if k == 2:
        s = [slice(None), slice(-5, None), slice(n), slice(0, 0), slice(3, None, 2)][int(rng.integers(5))]
        return s, np.arange(n)[s], "open slice"
    if k == 3:
        s = slices(rng, n, int(rng.integers(1, 5)))
        return s, np.hstack([np.arange(n)[x] for x in s]).astype(int), "slices"
    if k == 4 and labels:
        s = str(rng.choice(labels))
        return s, s, "state"
    if k == 5 and labels:
        s = [str(x) for x in rng.choice(labels, int(rng.integers(1, len(labels) + 1)), replace=False)]
        return s, s, "states"
    if k == 6 and rng.random() < .3:
        return [], np.array([], int), "no slices"
    return None, None, "all"


@monitor(130, 1300)
def selection(ctx):
    """Channels and groups: every way of asking gives the same rows of the same quantity."""
    import mass
    from mass.off.util import NoCutInds
    rng = ctx.rng
    nb = int(rng.choice([3, 4, 6]))
    chans = sorted(int(c) for c in rng.choice([1, 2, 3, 7, 15], int(rng.integers(1, 4)), replace=False))
    sizes = {c: int(rng.integers(5, 300)) for c in chans}
    t = vo.make(ctx, chans=chans, n=sizes, nb=nb, nstates=int(rng.integers(1, 9)), labels=("A", "B", "CO2", "Ir"))
    data = mass.off.ChannelGroup(t["paths"], verbose=False)
    labels = list(data.stateLabels)
    log = []
    ctx.case = dict(sizes=sizes, entries=t["entries"], log=log)
    graphs = {}
    ok = False
    for c, ds in data.items():
        r = t["recs"][c]
        g = graphs[c] = Graph(rng, COLS)
        g.val["cutNone"] = lambda q: np.ones(len(q), bool)
        g.val["unixnano"] = lambda q: q["unixnano"]
        g.val["relTimeSec"] = lambda q, t0=int(r["unixnano"][0]): 1e-9 * (q["unixnano"] - t0)
        g.val["filtPhase"] = lambda q: q["derivativeLike"] / q["filtValue"]
        for i in range(int(rng.integers(1, 6))):
            g.add(lambda nm, f, ing, ov: ds.recipes.add(nm, f, ing), f"q{i}_{ctx.index}")
        for i in range(int(rng.integers(1, 4))):
            g.add_cut(lambda nm, f, ing: ds.cutAdd(nm, f, ing), f"cut{i}", r)
        if rng.random() < .4:
            ds.cutAdd("cutDef", lambda filtValue: filtValue > 4000, setDefault=True)
            g.val["cutDef"] = lambda q: q["filtValue"] > 4000
            g.default = "cutDef"
        else:
            g.default = "cutNone"
        log.append((c, g.log, g.default))
    for c, ds in data.items():
        r, g = t["recs"][c], graphs[c]
        n = len(r)
        ctx.check(len(ds) == n and ds.nRecords == n, "number of records", f"{len(ds)}")
        lab = vo.truth_state(r["unixnano"], t["entries"])
        full = {k: f(r) for k, f in g.val.items()}
        ctx.same(np.asarray(ds.getAttr("coefs", NoCutInds()))[:, :3], np.stack([r["pulseMean"], r["derivativeLike"], r["filtValue"]], axis=1), "coefs view")
        for name in ("relTimeSec", "filtPhase", "filtValue", "pretriggerMean", "unixnano", "residualStdDev", "pulseMean", "derivativeLike"):
            ctx.same(np.asarray(getattr(ds, name)), full[name], "whole attribute")
        for _ in range(14):
            sel, rows, kind = random_sel(rng, n, labels)
            if rows is None or isinstance(rows, (str, list)):
                rows = rows_of(ds, lab, rows)
            cut = str(rng.choice([k for k in full if k.startswith("cut")]))
            bang = int(rng.integers(0, 4))
            form = "!" * bang + cut
            mask = full[cut] if bang % 2 == 0 else ~full[cut]
            if rng.random() < .3:
                form, mask = None, full[g.default]
            rows2 = rows[mask[rows]]
            keys = [k for k in full if not k.startswith("cut")]
            attrs = [str(a) for a in rng.choice(keys, int(rng.integers(1, 4)))]
            got = ds.getAttr(attrs, sel, form)
            ctx.check(len(got) == len(attrs), "list of attributes", "")
            for a, v in zip(attrs, got):
                ctx.same(np.asarray(v), full[a][rows2], f"selected attribute ({kind})")
            a = attrs[0]
            ctx.same(np.asarray(ds.getAttr(a, sel, cutRecipeName=form)), full[a][rows2], f"selected attribute ({kind})")
            if form is not None and bang == 0:
                other = ds.getAttr("unixnano", sel, "!" + form)
                mine = ds.getAttr("unixnano", sel, form)
                ctx.same(np.sort(np.hstack([mine, other])), np.sort(full["unixnano"][rows]), "a cut and its inverse part the records")
            ctx.same(np.asarray(ds.getAttr(cut, sel, "cutNone")), full[cut][rows], "cut as an attribute")
            if 0 < len(rows2) < n:
                ok = True
            if kind not in ("slice", "open slice", "slices", "no slices"):
                edges = np.linspace(np.min(full[a]) - 1, np.max(full[a]) + 1, int(rng.integers(2, 40)))
                x, y = ds.hist(list(edges) if rng.random() < .3 else edges, a, sel, form)
                ctx.same(np.asarray(y), np.histogram(full[a][rows2], edges)[0], "histogram")
                ctx.close(x, (edges[1:] + edges[:-1]) / 2, "bin centers", 1e-12)
                x, y = ds.hist(edges, a, sel, form, calibration=lambda v: v * .5)
                ctx.same(np.asarray(y), np.histogram(full[a][rows2] * .5, edges)[0], "histogram of calibrated values")
        for s in labels:
            ctx.same(rows_of(ds, lab, s), np.hstack([np.array([], int)] + [np.arange(n)[q] for q in ds.getStatesIndicies(s)]).astype(int), "rows of a state")
        ctx.check(ctx.raises(lambda: ds.getAttr("nosuch", None)) is not None, "unknown attribute refused", "")
        ctx.check(ctx.raises(lambda: ds.getAttr("filtValue", "nostate")) is not None, "unknown state refused", "")
    # the group adds the histograms of its good channels
    bad = chans[0] if len(chans) > 1 and rng.random() < .4 else None
    if bad:
        data[bad].markBad("test")
    good = [c for c in chans if c != bad]
    edges = np.linspace(0, 8000, 50)
    s = str(rng.choice(labels)) if labels and rng.random() < .6 else None
    want = {}
    for c in good:
        r, g = t["recs"][c], graphs[c]
        rows = rows_of(None, vo.truth_state(r["unixnano"], t["entries"]), s)
        want[c] = np.histogram(r["filtValue"][rows], edges)[0]
    x, hs = data.hists(edges, "filtValue", s, "cutNone")
    ctx.check(list(hs) == good, "channels of hists", f"{list(hs)}")
    for c in good:
        ctx.same(hs[c], want[c], "histograms of each channel")
    ctx.same(data.hist(edges, "filtValue", s, "cutNone")[1], sum(want.values()), "sum of the channels' histograms")
    # a group-wide cut
    data.cutAdd("cutAll", lambda filtValue: filtValue < 5500, setDefault=False, _rethrow=True)
    data.cutSetDefault("cutAll")
    for c in good:
        r = t["recs"][c]
        ctx.same(np.asarray(data[c].getAttr("filtValue", None)), r["filtValue"][r["filtValue"] < 5500], "group-wide default cut")
    ctx.same(data.hist(edges, "filtValue")[1], sum(np.histogram(t["recs"][c]["filtValue"][t["recs"][c]["filtValue"] < 5500], edges)[0] for c in good), "group histogram with default cut")
    if ok:
        ctx.nontrivial(len(chans), nb, len(labels), ctx.index)


@monitor(60, 600)
def arrays(ctx):
    """Channels made from numpy arrays."""
    import mass
    from mass.off.channels import ChannelFromNpArray, ChannelGroupFromNpArrays
    rng = ctx.rng
    chans, recs = [], {}
    t0 = 1.6e9
    for c in range(1, int(rng.integers(2, 4))):
        n = int(rng.integers(3, 120))
        a = np.zeros(n, dtype=[("p_timestamp", "f8"), ("p_filt_value", "f4"), ("p_pretrig_mean", "f4")])
        a["p_timestamp"] = t0 + np.cumsum(rng.uniform(.01, 2, n))
        a["p_filt_value"] = rng.uniform(0, 100, n)
        a["p_pretrig_mean"] = rng.uniform(0, 100, n)
        recs[c] = a
        chans.append(ChannelFromNpArray(a.copy(), c, f"chan{c}", verbose=False))
    data = ChannelGroupFromNpArrays(chans, "arrays", verbose=False)
    ctx.case = dict(sizes={c: len(a) for c, a in recs.items()})
    for c, ds in data.items():
        a = recs[c]
        n = len(a)
        thr = float(rng.uniform(0, 100))
        ds.cutAdd("cutLo", lambda p_filt_value: p_filt_value < thr, setDefault=bool(rng.random() < .5))
        ds.recipes.add(f"sum{ctx.index}", lambda x, y: x + 2 * y, ["p_filt_value", "p_pretrig_mean"])
        ds.recipes.add(f"twice{ctx.index}", lambda x: 2 * x, [f"sum{ctx.index}"])
        m = a["p_filt_value"] < thr
        d = m if ds._default_cut_recipe_name == "cutLo" else np.ones(n, bool)
        full = {"p_filt_value": a["p_filt_value"], "relTimeSec": a["p_timestamp"] - a["p_timestamp"][0], f"twice{ctx.index}": 2 * (a["p_filt_value"] + 2 * a["p_pretrig_mean"])}
        for _ in range(8):
            sel, rows, kind = random_sel(rng, n, [])
            rows = np.arange(n) if rows is None else rows
            for name, v in full.items():
                ctx.same(np.asarray(ds.getAttr(name, sel, "cutLo")), v[rows][m[rows]], "array channel attribute")
                ctx.same(np.asarray(ds.getAttr(name, sel, "!cutLo")), v[rows][~m[rows]], "array channel attribute, inverted cut")
                ctx.same(np.asarray(ds.getAttr(name, sel)), v[rows][d[rows]], "array channel attribute, default cut")
        if 0 < m.sum() < n:
            ctx.nontrivial(n, int(thr))
    edges = np.linspace(0, 100, 21)
    ctx.same(data.hist(edges, "p_filt_value", None, "cutNone")[1], sum(np.histogram(a["p_filt_value"], edges)[0] for a in recs.values()), "group histogram")


@monitor(50, 500)
def learned(ctx):
    """Learned corrections and calibrations commute with selection, chain, export and reload."""
    import h5py
    import mass
    rng = ctx.rng
    chans = [1, 4][:int(rng.integers(1, 3))]
    n = int(rng.integers(300, 900))
    t = vo.make(ctx, chans=chans, n=n, nstates=int(rng.integers(2, 7)))
    for p, c in zip(t["paths"], chans):  # a gain that follows the baseline, and a phase dependence
        r = t["recs"][c]
        r["filtValue"] *= (1 - 2e-4 * (r["pretriggerMean"] - 2000)).astype("f4")
        vo.write(p, r)
    data = mass.off.ChannelGroup(t["paths"], verbose=False)
    labels = list(data.stateLabels)
    ctx.case = dict(n=n, chans=chans, entries=t["entries"])
    nan = rng.random() < .3
    data.cutAdd("cutGood", lambda filtValue: filtValue > 500, setDefault=bool(rng.random() < .5), _rethrow=True)
    st = str(rng.choice(labels)) if labels and rng.random() < .3 and (vo.truth_state(t["recs"][chans[0]]["unixnano"], t["entries"]) == labels[0]).sum() > 50 else None
    dcs = data.learnDriftCorrection(states=None, overwriteRecipe=True, _rethrow=True)
    peaks = np.array([3000., 5000, 6500])
    which = str(rng.choice(["pc", "tc", "none"]))
    last = "filtValueDC"
    if which == "pc":
        data.learnPhaseCorrection(uncorrectedName=last, correctedName="fvPC", linePositionsFunc=lambda ds: peaks, _rethrow=True)
        last = "fvPC"
    elif which == "tc":
        data.learnTimeDriftCorrection(uncorrectedName=last, correctedName="fvTC", ndeg=2, _rethrow=True)
        last = "fvTC"
    full = {}
    for c, ds in data.items():
        r = t["recs"][c]
        if which == "tc":   # a time-dependent gain: values change by a polynomial of the time, in proportion
            x = np.asarray(ds.getAttr("relTimeSec", slice(None), "cutNone"), float)
            a = np.asarray(ds.getAttr("filtValueDC", slice(None), "cutNone"), float)
            ratio = np.asarray(ds.getAttr("fvTC", slice(None), "cutNone"), float) / a - 1
            u = 2 * (x - x.min()) / np.ptp(x) - 1
            left = ratio - np.polynomial.Polynomial.fit(u, ratio, 2)(u)
            ctx.check(np.all(np.abs(left) < 1e-6), "time-dependent gain", f"the change of values is not a function of time: {np.abs(left).max()}")
        dc = ds.recipes["filtValueDC"].f
        ctx.check(dc == dcs[c], "drift correction returned", "")
        want = r["filtValue"] * (1 + (r["pretriggerMean"] - dc.medianIndicator) * dc.slope)
        ctx.close(np.asarray(ds.getAttr("filtValueDC", slice(None), "cutNone")), want, "drift-corrected values", 1e-6)
        with h5py.File(os.path.join(ctx.tmp, f"dc{c}.hdf5"), "w") as f:
            dc.toHDF5(f)
            back = type(dc).fromHDF5(f)
        ctx.check(back == dc, "drift correction reloaded", "")
        ctx.same(back(r["pretriggerMean"], r["filtValue"]), dc(r["pretriggerMean"], r["filtValue"]), "reloaded drift correction")
        ds.calibrationPlanInit(last)
        for ph, name in zip(peaks, ("one", "two", "three")):
            ds.calibrationPlanAddPoint(ph * (1 + .001 * rng.normal()), name, energy=1.2 * ph * (1 + ph * 3e-6))
        cal = ds.calibrationPlan.getRoughCalibration()
        whole = np.asarray(ds.getAttr(last, slice(None), "cutNone"))
        ctx.check(len(whole) == n and np.all(np.isfinite(whole)), "corrected values finite", "")
        energy = np.asarray(ds.getAttr("energyRough", slice(None), "cutNone"))
        ctx.close(energy, cal(whole), "rough energy is the calibration of its ingredient", 1e-9)
        ctx.close(ds.recipes["energyRough"].inverse(energy), whole, "inverse of the rough energy", 5e-3)
        ctx.close(ds.calibrationPlan.energies, 1.2 * peaks * (1 + peaks * 3e-6), "plan energies", 1e-4)
        ds.recipes.add("energy", cal, [last])
        full[c] = {last: whole, "energyRough": energy, "energy": energy, "filtValueDC": np.asarray(ds.getAttr("filtValueDC", slice(None), "cutNone")), "unixnano": r["unixnano"]}

    def verify(d, what):
        for c, ds in d.items():
            lab = vo.truth_state(t["recs"][c]["unixnano"], t["entries"])
            m = t["recs"][c]["filtValue"] > 500
            for _ in range(6):
                sel, rows, kind = random_sel(rng, n, labels)
                if rows is None or isinstance(rows, (str, list)):
                    rows = rows_of(ds, lab, rows)
                rows = rows[m[rows]]
                for a, v in full[c].items():
                    ctx.close(np.asarray(ds.getAttr(a, sel, "cutGood")), v[rows], what + " learned attribute, selected", 1e-6, 1e-6 if a != "unixnano" else 0)
    verify(data, "fresh")
    fn = os.path.join(ctx.tmp, "books")
    data.saveRecipeBooks(fn)
    d2 = mass.off.ChannelGroup(t["paths"][::-1] if rng.random() < .5 else t["paths"], verbose=False)
    d2.loadRecipeBooks(fn)
    verify(d2, "reloaded")
    for c in chans:
        ctx.check(list(d2[c].recipes.keys()) == list(data[c].recipes.keys()), "reloaded recipe names", "")
        ctx.same(np.asarray(d2[c].getAttr("energy", None, "cutNone")), np.asarray(data[c].getAttr("energy", None, "cutNone")), "reloaded energies")
    # exports
    cut = "cutGood" if rng.random() < .6 else None
    trig = bool(rng.random() < .5)
    if trig:
        fc = np.sort(rng.integers(0, t["recs"][chans[0]]["framecount"].max(), 40)) * 32
        with open(os.path.join(ctx.tmp, "run_external_trigger.bin"), "wb") as f:
            f.write(b"# comment\n" + fc.astype("<i8").tobytes())
        data.calcExternalTriggerTiming(after_last=True, until_next=True, from_nearest=True)
    edges = np.arange(3000, 9000, 50.)
    with h5py.File(os.path.join(ctx.tmp, "out.hdf5"), "w") as f:
        data.energyTimestampLabelToHDF5(f, cut, _rethrow=True)
        for c in chans:
            ds = data[c]
            lab = vo.truth_state(t["recs"][c]["unixnano"], t["entries"])
            m = t["recs"][c]["filtValue"] > 500 if (cut or ds._default_cut_recipe_name == "cutGood") else np.ones(n, bool)
            grp = f[str(c)]
            for s in labels:
                rows = rows_of(ds, lab, s)
                rows = rows[m[rows]]
                ctx.close(grp[f"{s}/energy"][:], full[c]["energy"][rows], "exported energies", 1e-6)
                ctx.same(grp[f"{s}/unixnano"][:], full[c]["unixnano"][rows], "exported times")
                if trig:
                    for k in ("seconds_after_last_external_trigger", "seconds_until_next_external_trigger", "seconds_from_nearest_external_trigger"):
                        ctx.same(grp[f"{s}/{k}"][:], np.asarray(getattr(ds, k))[rows], "exported trigger times")
            if not labels:
                ctx.close(grp["energy"][:], full[c]["energy"][m], "exported energies", 1e-6)
    with h5py.File(os.path.join(ctx.tmp, "hist.hdf5"), "w") as f:
        data.histsToHDF5(f, edges, cutRecipeName=cut)
        tot = {}
        for c in chans:
            ds = data[c]
            lab = vo.truth_state(t["recs"][c]["unixnano"], t["entries"])
            m = t["recs"][c]["filtValue"] > 500 if (cut or ds._default_cut_recipe_name == "cutGood") else np.ones(n, bool)
            for s in labels + [None]:
                rows = rows_of(ds, lab, s)
                h = np.histogram(full[c]["energy"][rows[m[rows]]], edges)[0]
                ctx.same(f[f"{c}/{s}/counts" if s else f"{c}/counts"][:], h, "exported histogram")
                tot[s] = tot.get(s, 0) + h
        for s, h in tot.items():
            ctx.same(f[f"all_channels/{s}/counts" if s else "all_channels/counts"][:], h, "exported sum of histograms")
    # quality check of the calibration
    ds = data[chans[0]]
    err = np.abs(cal.drop_one_errors()[1]) if len(chans) == 1 else None
    if err is not None:
        big, med = float(err.max()), 1.4826 * float(np.median(err))
        for kw, bad in ((dict(thresholdAbsolute=big * 1.1), False), (dict(thresholdAbsolute=big * .9), True), (dict(thresholdSigmaFromMedianAbsoluteValue=big / med * 1.1), False),
                        (dict(thresholdSigmaFromMedianAbsoluteValue=big / med * .9), True), (dict(), False)):
            ds.markGood()
            ds.qualityCheckDropOneErrors(**kw)
            ctx.check(ds.markedBadBool == bad, "drop-one quality check", f"{kw}: errors {err}")
        ds.markGood()
    ctx.nontrivial(which, len(chans), len(labels), trig)
