"""C13: calibration points obey list semantics through any edit, copy or save."""
import os

import numpy as np

from vlib import cal as vc
from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case runs a random history of 10-60 operations (add named, unnamed, by feature name, replacing by name or by energy, refused, non-monotone; remove by name, prefix, energy window; evaluate; copy; save and load; change settings) on an "
        "EnergyCalibration and on a plain list of points, and compares the points, the settings, the curve and every refusal after each step. Non-trivial = the history replaced, removed and refused at least once.")
ASSUMPTIONS = ["a point added within its energy error of an existing one replaces it and keeps the older name, as add_cal_point does when unnamed points coincide",
               "a smoothing curve of points that are far from any smooth curve may be refused (LinAlgError); the points are judged all the same", "unnamed points are told apart by energy"]


class Model:
    def __init__(self, settings):
        self.pts = []  # dicts name, ph, e, dph, de
        self.set = dict(settings)

    def copy(self):
        m = Model(self.set)
        m.pts = [dict(p) for p in self.pts]
        return m

    def sorted(self):
        return sorted(self.pts, key=lambda p: p["ph"])

    def monotone(self, pts):
        s = sorted(pts, key=lambda p: p["ph"])
        return all(a["ph"] < b["ph"] and a["e"] < b["e"] for a, b in zip(s, s[1:]))

    def add(self, ph, e, name, dph, de, overwrite):
        """Returns None, or the reason of a refusal."""
        dph = ph * .001 if dph is None else dph
        de = .01 if de is None else de
        new = [dict(p) for p in self.pts]
        hit = None
        if name:
            hit = next((p for p in new if p["name"] == name), None)
        if hit is None and new:
            near = min(new, key=lambda p: abs(p["e"] - e))
            if abs(near["e"] - e) <= de:
                hit = near
        if hit is not None and not overwrite:
            return "exists"
        if hit is None:
            hit = dict(name=name)
            new.append(hit)
        hit.update(ph=ph, e=e, dph=dph, de=de)
        if not self.monotone(new):
            return "monotone"
        self.pts = new
        return None


def saved(cal, f, key):
    """What the calibration holds, through its file format."""
    cal.save_to_hdf5(f, key)
    g = f[key]
    return dict(name=[n.decode() for n in g["name"][:]] if len(g["name"]) else [], ph=g["ph"][:], e=g["energy"][:], dph=g["dph"][:], de=g["de"][:])


def compare(ctx, cal, m, f, what):
    want = m.sorted()
    have = list(zip(map(float, cal.cal_point_phs), map(float, cal.cal_point_energies), cal.cal_point_names))
    ctx.check(cal.npts == len(want), what + " number of points", f"{cal.npts} want {len(want)}")
    have.sort()
    wl = [(p["ph"], p["e"], p["name"]) for p in want]
    ctx.check(len(have) == len(wl) and all(h == w for h, w in zip(have, wl)), what + " points", f"{have}\nwant {wl}")
    if f is not None:
        s = saved(cal, f, "probe")
        i = np.argsort(s["ph"])
        for k in ("ph", "e", "dph", "de"):
            ctx.same(s[k][i], np.array([p[k] for p in want], float), what + " " + k)
        ctx.check([s["name"][j] for j in i] == [p["name"] for p in want], what + " names", f"{s['name']}")
        ctx.check(cal.curvename() == m.set["curvetype"], what + " curve type", f"{cal.curvename()}")
    ctx.count("comparisons", 1)


def curve(ctx, cal, m, what):
    want = m.sorted()
    ph = np.array([p["ph"] for p in want], float)
    e = np.array([p["e"] for p in want], float)
    if len(want) == 0:
        g = np.array([1.0, 10, 500])
        ctx.close(cal.ph2energy(g), g, what + " curve without points", 1e-12)
        ctx.close(cal.energy2ph(g), g, what + " curve without points", 1e-12)
        return
    if not m.set["approximate"] or len(want) < 3:
        E, _ = vc.oracle(m.set["curvetype"], ph, e, m.set["nonlinearity"])
        g = np.linspace(.5 * ph[0], 1.3 * ph[-1], 60)
        w = E(g)
        ok = np.isfinite(w) & (np.abs(w) < 20 * e[-1])
        ctx.close(cal.ph2energy(g)[ok], w[ok], what + " curve", 1e-6, 1e-7 * e[-1])
    ctx.count("curves", 1)


def newcal(rng):
    from mass.calibration.energy_calibration import EnergyCalibration
    s = dict(nonlinearity=float(rng.uniform(1, 1.3)), curvetype=str(rng.choice(vc.CURVES)), approximate=bool(rng.random() < .3), useGPR=bool(rng.random() < .7))
    return EnergyCalibration(**s), s


@monitor(300, 3000)
def history(ctx):
    import h5py
    from mass.calibration.energy_calibration import EnergyCalibration, STANDARD_FEATURES
    rng = ctx.rng
    feats = ["MnKAlpha", "MnKBeta", "CuKAlpha", "FeKAlpha", "TiKAlpha", "CrKAlpha", "CoKAlpha", "NiKAlpha"]
    names = ["a", "b", "Mn", "MnK", "K", "x1", "x2", "αβ", "long name with spaces", "Fe"] + feats
    power, scale = rng.uniform(.8, 1.0), 10 ** rng.uniform(0, 1)
    cal, s = newcal(rng)
    m = Model(s)
    others = []
    ops, seen = [], set()
    ctx.case = dict(settings=s, ops=ops)
    with h5py.File(os.path.join(ctx.tmp, "c.hdf5"), "w") as f:
        for step in range(int(rng.integers(10, 60))):
            op = str(rng.choice(["add", "add", "add", "add", "add", "replace", "near", "bad", "unknown", "nooverwrite", "rmname", "rmprefix", "rmenergy", "eval", "copy", "hdf", "set", "print", "rmmissing"]))
            refused = None
            want = None
            if op in ("add", "replace", "near", "bad", "nooverwrite"):
                e = float(np.round(rng.uniform(500, 9000), 3))
                name = str(rng.choice(names)) if rng.random() < .6 else ""
                if name in feats and rng.random() < .6:
                    e = STANDARD_FEATURES[name]
                arg = e
                if op == "replace" and m.pts:
                    name = str(rng.choice([p["name"] for p in m.pts]))
                if op in ("near", "nooverwrite") and m.pts:
                    p = m.pts[int(rng.integers(len(m.pts)))]
                    e = p["e"] + float(rng.choice([0, .004, -.004, .02, 1.5]))
                    name = str(rng.choice(["", "n", p["name"]]))
                    arg = e
                ph = scale * e ** power * (1 + 1e-4 * rng.normal())
                if op == "bad" and m.pts:
                    ph = ph * float(rng.choice([.2, 5]))
                if m.pts and rng.random() < .06:
                    # a pulse height or an energy already taken
                    p = m.pts[int(rng.integers(len(m.pts)))]
                    if rng.random() < .6:
                        ph = p["ph"]
                    else:
                        e = arg = p["e"]
                elif op == "add" and rng.random() < .2:
                    name = str(rng.choice(feats))
                    e = STANDARD_FEATURES[name]
                    ph = scale * e ** power
                    arg = name
                elif rng.random() < .2:
                    arg = np.float64(e)
                dph = float(ph * rng.uniform(1e-4, 2e-3)) if rng.random() < .6 else None
                de = float(rng.uniform(.001, 2)) if rng.random() < .5 else None
                over = op != "nooverwrite"
                # two candidates equally near in energy would be ambiguous
                d = sorted(abs(p["e"] - e) for p in m.pts)
                if len(d) > 1 and d[1] - d[0] < 1e-9:
                    continue
                before = m.copy()
                want = m.add(float(ph), e, name, dph, de, over)
                kw = {}
                if dph is not None:
                    kw["pht_error"] = dph
                if de is not None:
                    kw["e_error"] = de
                if not over:
                    kw["overwrite"] = False
                ops.append((op, float(ph), str(arg), name, dph, de))
                nm = {} if isinstance(arg, str) else dict(name=name)
                refused = ctx.raises(lambda: cal.add_cal_point(float(ph), arg, **nm, **kw))
                ctx.check((refused is not None) == (want is not None), "refusal of a point", f"{ops[-1]}: {refused!r} want {want}")
                if want:
                    seen.add("refused " + want)
                elif len(m.pts) == len(before.pts):
                    seen.add("replaced")
            elif op == "unknown":
                ops.append((op,))
                r = ctx.raises(lambda: cal.add_cal_point(5.0, "NoSuchKAlpha"), ValueError)
                ctx.check(r is not None, "unknown feature refused", "")
                seen.add("refused unknown")
            elif op == "rmname":
                named = [p["name"] for p in m.pts if p["name"]]
                if not named:
                    continue
                nme = str(rng.choice(named))
                if sum(p["name"] == nme for p in m.pts) > 1:
                    continue
                ops.append((op, nme))
                cal.remove_cal_point_name(nme)
                m.pts = [p for p in m.pts if p["name"] != nme]
                seen.add("removed")
            elif op == "rmmissing":
                ops.append((op,))
                ctx.check(ctx.raises(lambda: cal.remove_cal_point_name("not there")) is not None, "removing a missing point refused", "")
            elif op == "rmprefix":
                if rng.random() < .5:
                    continue
                pre = str(rng.choice(["M", "Mn", "MnK", "x", "a", "Z", "long"]))
                ops.append((op, pre))
                left = [p for p in m.pts if not p["name"].startswith(pre)]
                got = cal.remove_cal_point_prefix(pre)
                ctx.check(got == len(m.pts) - len(left), "number removed by prefix", f"{got} want {len(m.pts) - len(left)}")
                if len(left) < len(m.pts):
                    seen.add("removed")
                m.pts = left
            elif op == "rmenergy":
                if not m.pts or rng.random() < .5:
                    continue
                e0 = m.pts[int(rng.integers(len(m.pts)))]["e"] + float(rng.choice([0, .3, 100]))
                de = float(rng.choice([.1, 1, 500, 2000]))
                ops.append((op, e0, de))
                cal.remove_cal_point_energy(e0, de)
                left = [p for p in m.pts if not abs(p["e"] - e0) < de]
                if len(m.pts) - len(left) > 1:
                    seen.add("removed several")
                seen.add("removed")
                m.pts = left
            elif op == "eval":
                ops.append((op,))
                curve(ctx, cal, m, "edited")
            elif op == "copy":
                ops.append((op,))
                c2 = cal.copy()
                compare(ctx, c2, m, f, "copy")
                others.append((cal, m.copy(), "original after its copy was edited"))
                if rng.random() < .5:
                    others[-1] = (c2, m.copy(), "copy after its original was edited")
                else:
                    cal = c2
                    m = m.copy()
                seen.add("copied")
            elif op == "hdf":
                ops.append((op,))
                where = f.require_group("sub/g") if rng.random() < .3 else f
                cal.save_to_hdf5(where, "thecal")
                c2 = EnergyCalibration.load_from_hdf5(where, "thecal")
                compare(ctx, c2, m, f, "reloaded")
                g = np.linspace(50, 60000, 50)
                a, b = ctx.raises(lambda: cal.ph2energy(g)), ctx.raises(lambda: c2.ph2energy(g))
                ctx.check((a is None) == (b is None), "reloaded curve", f"{a!r} vs {b!r}")
                if a is None and b is None:
                    ctx.close(c2.ph2energy(g), cal.ph2energy(g), "reloaded curve", 1e-12)
                    ctx.close(c2.energy2ph(g[:5]), cal.energy2ph(g[:5]), "reloaded inverse curve", 1e-12)
                curve(ctx, c2, m, "reloaded")
                if rng.random() < .5:
                    cal = c2
                seen.add("reloaded")
            elif op == "set":
                k = int(rng.integers(4))
                if k == 0:
                    m.set["curvetype"] = str(rng.choice(vc.CURVES))
                    cal.set_curvetype(m.set["curvetype"] if rng.random() < .5 else vc.CURVES.index(m.set["curvetype"]))
                elif k == 1:
                    m.set["approximate"] = not m.set["approximate"]
                    cal.set_use_approximation(m.set["approximate"])
                elif k == 2:
                    m.set["nonlinearity"] = float(rng.uniform(1, 1.3))
                    cal.set_nonlinearity(m.set["nonlinearity"])
                else:
                    m.set["useGPR"] = not m.set["useGPR"]
                    cal.set_GPR(m.set["useGPR"])
                ops.append((op, k, dict(m.set)))
                ctx.check(ctx.raises(lambda: cal.set_curvetype("nonsense"), ValueError) is not None, "unknown curve type refused", "")
            else:
                ops.append((op,))
                try:
                    text = str(cal)
                except np.linalg.LinAlgError:
                    if not m.set["approximate"] or len(m.pts) < 3:
                        raise
                    continue  # no smooth curve fits points that contradict each other by many sigma
                ctx.check(all(p["name"] in text for p in m.pts) and text.count("-->") == len(m.pts), "printed points", text)
                repr(cal)
            compare(ctx, cal, m, f if step % 4 == 0 else None, "edited")
        compare(ctx, cal, m, f, "edited")
        curve(ctx, cal, m, "edited")
        for c, mm, what in others:
            compare(ctx, c, mm, f, what)
            curve(ctx, c, mm, what)
    if {"replaced", "removed"} <= seen and any(x.startswith("refused") for x in seen):
        ctx.nontrivial(*sorted(seen), len(m.pts), s["curvetype"])


@monitor(60, 500)
def persist(ctx):
    """Every setting and point survives HDF5, also after the file is closed; an approximate curve too."""
    import h5py
    from mass.calibration.energy_calibration import EnergyCalibration
    rng = ctx.rng
    n = int(rng.integers(0, 9))
    ph, e = vc.points(rng, max(n, 1))
    cal, s = newcal(rng)
    ctx.case = dict(settings=s, ph=ph.tolist(), e=e.tolist(), n=n)
    for i in rng.permutation(n):
        cal.add_cal_point(float(ph[i]), float(e[i]), f"p{i}" if rng.random() < .7 else "", pht_error=float(ph[i] * 1e-3), e_error=float(rng.uniform(.001, .5)))
    g = np.linspace(.5 * ph[0], 1.3 * ph[-1], 80)
    early = bool(rng.random() < .5)
    before = cal.ph2energy(g) if early else None
    fn = os.path.join(ctx.tmp, "c.hdf5")
    with h5py.File(fn, "w") as f:
        if rng.random() < .3:
            EnergyCalibration().save_to_hdf5(f, "c")  # overwritten
        cal.save_to_hdf5(f, "c")
    cal2 = cal.copy()
    with h5py.File(fn, "r") as f:
        back = EnergyCalibration.load_from_hdf5(f, "c")
    before = cal.ph2energy(g) if before is None else before
    for c, what in ((back, "reloaded"), (cal2, "copied")):
        ctx.close(c.ph2energy(g), before, what + " curve", 1e-10)
        ctx.close(c.energy2ph(e), cal.energy2ph(e), what + " inverse", 1e-10)
        ctx.check(c.curvename() == s["curvetype"], what + " curve type", c.curvename())
        ctx.same(np.sort(c.cal_point_phs), np.sort(cal.cal_point_phs), what + " points")
        ctx.check(c.nonlinearity == s["nonlinearity"], what + " nonlinearity", f"{c.nonlinearity}")
        if n >= 3 and s["approximate"]:
            ctx.close(c.ph2uncertainty(ph), cal.ph2uncertainty(ph), what + " uncertainty", 1e-9)
        elif not s["approximate"]:
            ctx.check(ctx.raises(lambda: c.ph2uncertainty(ph), ValueError) is not None, what + " approximate setting", "")
    ctx.nontrivial(s["curvetype"], s["approximate"], s["useGPR"], n)


@monitor(150, 2000)
def settings(ctx):
    """Few points, many changes of settings with conversions between them: always the curve of a new calibration with the same points and settings."""
    from mass.calibration.energy_calibration import EnergyCalibration
    rng = ctx.rng
    n = int(rng.choice([0, 1, 1, 1, 2, 2, 3, 4]))
    e = np.sort(rng.uniform(500, 9000, n)) + 30 * np.arange(n)
    ph = 2.5 * e ** rng.uniform(.85, 1) if n else e
    if rng.random() < .2 and n > 1:
        e, ph = e[::-1].copy(), ph[::-1].copy()
    cal, s = newcal(rng)
    ops = []
    ctx.case = dict(settings=dict(s), e=e, ph=ph, ops=ops)
    pts = []
    todo = list(zip(ph, e))
    g = np.linspace(.3, 1.5, 13) * (np.median(ph) if n else 100.)
    for step in range(int(rng.integers(4, 14))):
        k = int(rng.integers(7))
        if k == 0:
            s["curvetype"] = str(rng.choice(vc.CURVES))
            cal.set_curvetype(s["curvetype"] if rng.random() < .5 else vc.CURVES.index(s["curvetype"]))
        elif k == 1:
            s["approximate"] = not s["approximate"]
            cal.set_use_approximation(s["approximate"])
        elif k == 2:
            s["nonlinearity"] = float(rng.uniform(1, 1.3))
            cal.set_nonlinearity(s["nonlinearity"])
        elif k == 3:
            s["useGPR"] = not s["useGPR"]
            cal.set_GPR(s["useGPR"])
        elif k == 4 and pts:
            q = int(rng.integers(len(pts)))
            todo.append(pts.pop(q))
            cal.remove_cal_point_energy(todo[-1][1], .1)
        elif todo:
            a = todo.pop(0)
            pts.append(a)
            cal.add_cal_point(float(a[0]), float(a[1]))
        ops.append((k, dict(s), len(pts)))
        if rng.random() < .75:
            fresh = EnergyCalibration(**s)
            for a in pts:
                fresh.add_cal_point(float(a[0]), float(a[1]))
            for name, f in (("energies", lambda c: c.ph2energy(g)), ("slopes", lambda c: c.ph2dedph(g)), ("pulse heights", lambda c: c.energy2ph(np.array([700., 3000., 6000.]))),
                            ("uncertainties", lambda c: c.ph2uncertainty(g) if s["approximate"] and len(pts) >= 3 else np.zeros(1))):
                a, b = [None, None], [None, None]
                for i, c in enumerate((cal, fresh)):
                    try:
                        a[i] = f(c)
                    except (np.linalg.LinAlgError, ValueError) as x:
                        b[i] = type(x).__name__
                ctx.check(b[0] == b[1], "after new settings: " + name, f"{b}")
                if b[0] is None:
                    ctx.close(np.asarray(a[0], float), np.asarray(a[1], float), "after new settings: " + name, 1e-12, 1e-12)
            ctx.count("compared_to_new")
    ctx.nontrivial(len(pts), s["curvetype"], len(ops))
