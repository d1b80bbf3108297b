"""C32: the atomic-level database and its highly-charged-ion lines and models say what the dump says."""
import os
import pickle

import numpy as np
import scipy.special

from vlib.core import monitor

BUILD = "fast"
RULE = ("Each case writes an SQL dump of atomic levels (any field order, other tables, missing values, rows in one or many statements), converts it, and compares the database, every query of it and the lines made of it with the rows written; "
        "or evaluates the ready-made H-like, He-like and composite models at random parameters against sums of scipy Voigt profiles at the levels' energies. The level file that the package leaves out is replaced in the scratch copy by one made of simple formulas. "
        "Non-trivial = databases of several elements or charge states, queries with several results, models of several lines.")
ASSUMPTIONS = ["hci_lines loads a level file that is not in the repository; the check puts a synthetic one into its scratch copy", "level names are three words: configuration, term, J=value (others cannot be asked for by their parts)"]

CM = 299792458.0 * 4.135667696e-15 * 100        # eV per 1/cm
ZS = {"N": 7, "O": 8, "Ne": 10, "Ar": 18}


def _levels():
    """Made-up levels in 1/cm of the H-like and He-like ions that hci_lines loads when imported."""
    out = {}
    for el, Z in ZS.items():
        ry = 109737.3 * Z * Z
        h = {"1s 2S J=1/2": [0.0, 0.0]}
        for n in range(2, 6):
            e = ry * (1 - 1 / n**2)
            h[f"{n}p 2P* J=1/2"] = [e * (1 + 1e-6 * Z), .5]
            h[f"{n}s 2S J=1/2"] = [e * (1 + 1.5e-6 * Z), .25]
            h[f"{n}p 2P* J=3/2"] = [e * (1 + 1e-4 * Z**1.5 / n), .75]
        ry = 109737.3 * (Z - .6)**2
        he = {"1s2 1S J=0": [0.0, 0.0], "1s.2s 3S J=1": [ry * .738, 1.], "1s.2p 3P* J=1": [ry * .748, 2.], "1s.2p 1P* J=1": [ry * .757, 3.]}
        for n in range(3, 6):
            he[f"1s.{n}p 1P* J=1"] = [ry * (1 - 1 / n**2 + .003), 4.]
        out[el] = {Z: h, Z - 1: he}
    return out


LEVELS = _levels()
TREE = os.environ.get("VERIF_TREE", "")
if TREE:
    name = "nist_asd_2023.pickle"
    p = os.path.join(TREE, "mass", "calibration", name)
    if not os.path.realpath(p).startswith("/repo/"):
        q = f"{p}.{os.getpid()}"
        with open(q, "wb") as fp:
            pickle.dump(LEVELS, fp)
        os.replace(q, p)

ELEMENTS = ["Be", "C", "Si", "Ga", "Fe", "U", "W", "Xe"]


def make_rows(rng, big=True):
    """Rows (element, charge, conf, term, J, energy, unc) as they would be written, some of them without what names a level."""
    rows = []
    for el in rng.permutation(ELEMENTS)[:int(rng.integers(1, 5))]:
        for ch in rng.permutation(np.arange(1, 12))[:int(rng.integers(1, 4))]:
            for k in range(int(rng.integers(1, 12 if big else 4))):
                conf = str(rng.choice(["1s", "2p", "1s.2p", "1s2.2s2.2p<3/2>", "3d10.(2F*).4f", "5g, odd", ""]))
                conf = conf and conf + (str(k) if rng.random() < .7 else "")
                term = str(rng.choice(["2P*", "1S", "3P", "*", "", "[3/2]*"]))
                j = str(rng.choice(["0", "1/2", "3/2", "1", "", "2,3"]))
                e = None if rng.random() < .07 else float(np.round(10**rng.uniform(0, 7), 4))
                u = None if rng.random() < .2 else float(np.round(10**rng.uniform(-4, 1), 5))
                rows.append((str(el), int(ch), conf if rng.random() > .05 else None, term if rng.random() > .05 else None, j, e, u))
    return [rows[i] for i in rng.permutation(len(rows))]


def reference(rows):
    d = {}
    for el, ch, conf, term, j, e, u in rows:
        if conf and term and term != "*":
            d.setdefault(el, {}).setdefault(ch, {})[f"{conf} {term} J={j}"] = [np.nan if e is None else e, np.nan if u is None else u]
    return d


def quote(rng, v, number):
    if v is None:
        return "NULL"
    if number and rng.random() < .5:
        return repr(v)
    return "'" + str(v) + "'"


def write_dump(rng, path, rows):
    need = ["element", "spectr_charge", "conf", "term", "j_val", "energy", "unc"]
    fields = [str(f) for f in rng.permutation(need + ["id", "comment", "prefix"][:int(rng.integers(0, 4))])]
    txt = ["-- a dump of levels", "/*!40101 SET NAMES utf8 */;"]
    other = ["CREATE TABLE `ASD_Lines` (", "  `id` int(11) NOT NULL,", "  `element` varchar(2),", "  `unc` float,", "  PRIMARY KEY (`id`)", ") ENGINE=InnoDB;",
             "INSERT INTO `ASD_Lines` VALUES (1,'H',2.5),(2,'He',NULL);"]
    mine = ["CREATE TABLE `ASD_Levels` ("] + [f"  `{f}` varchar(255) DEFAULT NULL," for f in fields] + ["  PRIMARY KEY (`element`)", ") ENGINE=InnoDB DEFAULT CHARSET=utf8;", "LOCK TABLES `ASD_Levels` WRITE;"]
    cuts = np.sort(rng.integers(0, len(rows) + 1, int(rng.integers(0, 4))))
    if rng.random() < .4:
        cuts = np.r_[cuts, 1]
    ends = sorted({0, len(rows), *[int(c) for c in cuts]})
    for a, b in zip(ends[:-1], ends[1:]):
        vals = []
        for r in rows[a:b]:
            v = dict(zip(need, r))
            s = {k: quote(rng, v[k], k in {"spectr_charge", "energy", "unc"}) for k in need}
            s.update(id="17", comment="'a (parenthesis), and é'", prefix="NULL")
            vals.append("(" + ",".join(s[f] for f in fields) + ")")
        mine.append("INSERT INTO `ASD_Levels` VALUES " + ",".join(vals) + (";" if rng.random() < .9 else ""))
    mine.append("UNLOCK TABLES;")
    for part in ([other, mine] if rng.random() < .5 else [mine, other]):
        txt += part + [""]
    with open(path, "w", encoding="utf-8") as fp:
        fp.write("\n".join(txt) + "\n")


def same(a, b):
    return (np.isnan(a) and np.isnan(b)) or a == b


@monitor(300, 6000)
def dump(ctx):
    """A dump converted to a database holds every named level once, sorted by energy."""
    from mass.calibration.import_asd import write_asd_pickle
    rng = ctx.rng
    rows = make_rows(rng)
    ref = reference(rows)
    a, b = os.path.join(ctx.tmp, "dump.sql"), os.path.join(ctx.tmp, "levels.pickle")
    write_dump(rng, a, rows)
    write_asd_pickle(a, b)
    with open(b, "rb") as fp:
        got = pickle.load(fp)
    ctx.case.update(rows=len(rows), elements=sorted(ref))
    if not ctx.check(sorted(map(str, got)) == sorted(ref), "dump:elements", f"{sorted(map(str, got))} != {sorted(ref)}"):
        return
    for el, ions in ref.items():
        if not ctx.check(sorted(int(c) for c in got[el]) == sorted(ions), "dump:charges", f"{el}: {list(got[el])}"):
            continue
        for ch, lev in ions.items():
            g = got[el][ch]
            ctx.count("levels", len(lev))
            if not ctx.check(sorted(g) == sorted(lev), "dump:levels", f"{el} {ch}: {sorted(g)} != {sorted(lev)}"):
                continue
            ctx.check(all(len(g[k]) == 2 and same(g[k][0], v[0]) and same(g[k][1], v[1]) for k, v in lev.items()), "dump:values", f"{g} != {lev}")
            e = np.array([v[0] for v in g.values()])
            ok = e[~np.isnan(e)]
            ctx.check(bool(np.all(np.diff(ok) >= 0)) and not np.isnan(e[:len(ok)]).any(), "dump:order", f"{e}")
    if sum(len(x) for x in ref.values()) > 1:
        ctx.nontrivial(len(rows), len(ref))


def database(ctx, rows=None):
    """A level file, made by hand from rows."""
    rng = ctx.rng
    d = reference(rows or make_rows(rng))
    d = {el: {ch: dict(sorted(((k, v) for k, v in lev.items()), key=lambda kv: (np.isnan(kv[1][0]), kv[1][0]))) for ch, lev in ions.items()} for el, ions in d.items()}
    p = os.path.join(ctx.tmp, "db.pickle")
    with open(p, "wb") as fp:
        pickle.dump(d, fp, protocol=2)
    return d, p


@monitor(300, 6000)
def queries(ctx):
    """Every query returns exactly the levels that match, in order, in the units asked for."""
    from mass.calibration.hci_lines import NIST_ASD
    rng = ctx.rng
    d, p = database(ctx)
    ctx.need(len(d) > 0)
    a = NIST_ASD(p)
    ctx.same(a.getAvailableElements(), list(d), "queries:elements")
    for el in d:
        ctx.same(a.getAvailableSpectralCharges(el), list(d[el]), "queries:charges")
    for _ in range(12):
        el = str(rng.choice(list(d)))
        ch = int(rng.choice(list(d[el])))
        lev = d[el][ch]
        parts = {k: k.split() for k in lev if len(k.split()) == 3}
        if not parts:
            continue
        pick = parts[str(rng.choice(list(parts)))]
        kw = {}
        if rng.random() < .4:
            kw["requiredConf"] = pick[0] if rng.random() < .9 else "9z"
        if rng.random() < .4:
            kw["requiredTerm"] = pick[1]
        if rng.random() < .4:
            kw["requiredJVal"] = pick[2][2:]
        if rng.random() < .5:
            kw["maxLevels"] = int(rng.integers(0, 6))
        unit = str(rng.choice(["eV", "cm-1"]))
        if unit != "eV" or rng.random() < .5:
            kw["units"] = unit
        unc = bool(rng.random() < .5)
        if not unc or rng.random() < .5:
            kw["getUncertainty"] = unc
        f = CM if unit == "eV" else 1
        want = [(k, lev[k]) for k, (c, t, j) in parts.items() if kw.get("requiredConf", c) == c and kw.get("requiredTerm", t) == t and kw.get("requiredJVal", j[2:]) == j[2:]]
        want = want[:kw.get("maxLevels", len(want))]
        got = a.getAvailableLevels(el, ch if rng.random() < .7 else str(ch), **kw)
        ctx.case.update(query=str(kw), element=el, charge=ch)
        ctx.count("queries")
        if ctx.check(list(got) == [k for k, _ in want], "queries:levels", f"{list(got)} != {[k for k, _ in want]}"):
            for k, v in want:
                ctx.close(got[k], np.array(v) * f if unc else v[0] * f, "queries:values", rtol=1e-7, atol=0)
        one = a.getSingleLevel(el, ch, pick[0], pick[1], pick[2][2:], **{k: kw[k] for k in ("units", "getUncertainty") if k in kw})
        v = lev[" ".join(pick)]
        ctx.close(one, np.array(v) * f if unc else v[0] * f, "queries:single level", rtol=1e-7, atol=0)
        if len(want) > 1:
            ctx.nontrivial(len(want), unit, unc)
    ctx.check(ctx.raises(lambda: a.getSingleLevel(el, ch, "7z", "9P", "0"), KeyError) is not None, "queries:unknown level", "no error")
    with open(p, "rb") as fp:
        again = pickle.load(fp)
    ctx.check(repr(again) == repr(a.NIST_ASD_Dict), "queries:database changed", "")


@monitor(120, 2000)
def lines(ctx):
    """Levels of the H-like and He-like ions become lines at their energies, named after them."""
    import mass
    from mass.calibration import hci_lines as hl
    rng = ctx.rng
    tag = f"x{ctx.index}t{int(rng.integers(10**9))}"
    # a line of any number of components
    n = int(rng.integers(1, 5))
    el, ch = str(rng.choice(ELEMENTS)), int(rng.integers(1, 30))
    e = float(rng.uniform(100, 9000)) + np.sort(rng.uniform(0, 30, n))
    w, r = rng.uniform(.05, 2, n), rng.uniform(.1, 3, n)
    kw = dict(nominal_peak_energy=float(e[0] + .7)) if rng.random() < .4 else {}
    conv = (lambda v: list(map(float, v))) if rng.random() < .5 else np.array
    line = hl.add_hci_line(el, ch if rng.random() < .5 else float(ch), f"{tag} 2P* J=1", conv(e), conv(w), conv(r), **kw)
    name = f"{el}{ch} {tag} 2P* J=1"
    ctx.check(line.shortname == name and mass.spectra[name] is line and mass.calibration.fluorescence_lines.spectrum_classes[name]() is line, "lines:name", f"{line.shortname} {name}")
    ctx.close(line.nominal_peak_energy, kw.get("nominal_peak_energy", float((e * r).sum() / r.sum())), "lines:nominal energy", rtol=1e-12)
    x = rng.uniform(e[0] - 5, e[-1] + 5, 40)
    fw = float(rng.uniform(.2, 3))
    want = sum(a * b * scipy.special.voigt_profile(x - c, fw / np.sqrt(8 * np.log(2)), b / 2) for a, b, c in zip(r, w, e)) / (r * w).sum()
    ctx.close(line.pdf(x, instrument_gaussian_fwhm=fw), want, "lines:density", rtol=1e-8)
    # all levels of an ion
    import xraydb
    el = str(rng.choice(["Be", "C", "Si", "Ga", "Fe", "Xe"]))
    Z = int(xraydb.atomic_number(el))
    rows = []
    for c in (Z, Z - 1, Z - 2):
        rows.append((el, c, f"1s{tag}", "1S", "0", 0.0, 0.0))
        rows += [(el, c, f"{k}p{tag}", "2P*", j, float(10**rng.uniform(5, 8)), 1.) for k in range(int(rng.integers(0, 6))) for j in ("1/2", "3/2")]
    d, p = database(ctx, rows)
    asd = hl.NIST_ASD(p)
    for f, c in ((hl.add_H_like_lines_from_asd, Z), (hl.add_He_like_lines_from_asd, Z - 1)):
        m = int(rng.integers(1, 8)) if rng.random() < .6 else None
        got = f(asd, el, **({} if m is None and rng.random() < .5 else dict(maxLevels=m)))
        want = [(f"{el}{c} {k}", v[0] * CM) for k, v in d[el][c].items() if v[0] != 0][:m]
        ctx.case.update(element=el, charge=c, maxLevels=m)
        ctx.same([g.shortname for g in got], [k for k, _ in want], "lines:of an ion")
        for g, (k, v) in zip(got, want):
            ctx.check(mass.spectra[k] is g, "lines:registered", k)
            ctx.close([g.peak_energy, g.nominal_peak_energy], [v, v], "lines:energy", rtol=1e-7)
            ctx.close(float(g.pdf(np.array([g.peak_energy]), instrument_gaussian_fwhm=.5)[0]), float(scipy.special.voigt_profile(0, .5 / np.sqrt(8 * np.log(2)), .05)), "lines:width", rtol=1e-8)
        ctx.count("lines", len(got))
        if len(got) > 1:
            ctx.nontrivial(c, len(got), m)
    # the lines made when the module was imported
    el = str(rng.choice(list(ZS)))
    for c, lev in LEVELS[el].items():
        for k, v in lev.items():
            nm = f"{el}{c} {k}"
            if v[0] == 0:
                ctx.check(nm not in mass.spectra, "lines:ground level", nm)
            elif ctx.check(nm in mass.spectra, "lines:imported", f"{nm} is missing"):
                ctx.close(mass.spectra[nm].peak_energy, v[0] * CM, "lines:imported energy", rtol=1e-7)


def pre(name):
    return "".join(c for c in f"{name}_".replace("J=", "").replace(" ", "_").replace("/", "_") if c not in "*.")


def e_of(name):
    """Energy of a line; how the constants in it are rounded does not matter."""
    import mass
    ion, rest = name.split(" ", 1)
    el = ion.rstrip("0123456789")
    e = mass.spectra[name].peak_energy
    assert abs(e - LEVELS[el][int(ion[len(el):])][rest][0] * CM) < 1e-7 * e
    return e


def hlike(el, conf):
    return [f"{el}{ZS[el]} {conf} 2P* J=1/2", f"{el}{ZS[el]} {conf} 2P* J=3/2"], f"{el}{ZS[el]} {conf} 2P* J=3/2", {f"{el}{ZS[el]} {conf}": f"{el}{ZS[el]}_{conf}_amp_ratio"}


def helike(el, extra=()):
    b = f"{el}{ZS[el] - 1} 1s."
    return [b + "2s 3S J=1", b + "2p 3P* J=1", b + "2p 1P* J=1", *extra], b + "2p 1P* J=1", {}


def catalogue():
    """name of each ready-made model: (lines, line that the energies refer to, names of amplitude ratios)"""
    out = {}
    for el, cs in (("N", "345"), ("O", "345"), ("Ne", "2345"), ("Ar", "2345")):
        for n in cs:
            out[f"{el}{ZS[el]} {n}p"] = hlike(el, n + "p")
    for el in ZS:
        out[f"{el}{ZS[el] - 1} 1s2s_2p Complex"] = helike(el)
    for el, cs in (("N", "45"), ("O", "45"), ("Ne", "345"), ("Ar", "345")):
        for n in cs:
            k = f"{el}{ZS[el] - 1} 1s.{n}p 1P* J=1"
            out[k] = ([k], k, {})
    a = hlike("N", "2p")
    out["N 500eV Region"] = (["N6 1s.3p 1P* J=1"] + a[0], a[1], a[2])
    a = hlike("O", "2p")
    out["O 660eV Region"] = (a[0] + ["O7 1s.3p 1P* J=1"], a[1], a[2])
    return out


def smear(x, e, fw, tails):
    """One narrow Lorentzian line, without or with a low-energy tail (frac, tau), numerically."""
    def v(y):
        return scipy.special.voigt_profile(y - e, fw / np.sqrt(8 * np.log(2)), .05)
    if not tails or tails[0] == 0:
        return v(x)
    f, tau = tails
    t = (np.arange(4000) + .5) * (30 / 4000)
    return (1 - f) * v(x) + f * sum(v(x + s * tau) * np.exp(-s) for s in t) * (30 / 4000)


@monitor(120, 2000)
def models(ctx):
    """The ready-made models are sums of their lines at fixed separations with one resolution and one gain."""
    from mass.calibration import hci_models as hm
    import mass.calibration.hci_lines  # noqa
    rng = ctx.rng
    bg, tails, vary = (bool(rng.random() < .5) for _ in range(3))
    cat = catalogue()
    if rng.random() < .25:
        got = hm.models(has_linear_background=bg, has_tails=tails, vary_Hlike_amp_ratio=vary)
        ctx.same(sorted(got), sorted(cat), "models:names")
        todo = {k: got[k] for k in rng.permutation(sorted(cat))[:4] if k in got}
    else:
        kind = int(rng.integers(4))
        el = str(rng.choice(list(ZS)))
        if kind == 0:
            conf = str(rng.choice(["2p", "3p", "5p"]))
            m = hm.initialize_HLike_2P_model(el, conf, has_linear_background=bg, has_tails=tails, vary_amp_ratio=vary)
            cat = {f"{el}{ZS[el]} {conf}": hlike(el, conf)}
        elif kind == 1:
            extra = [f"{el}{ZS[el] - 1} 1s.{n}p 1P* J=1" for n in (3, 4)][:int(rng.integers(0, 3))]
            m = hm.initialize_HeLike_complex_model(el, has_linear_background=bg, has_tails=tails, additional_line_names=extra)
            cat = {f"{el}{ZS[el] - 1} 1s2s_2p Complex": helike(el, extra)}
        elif kind == 2:
            k = f"{el}{ZS[el]} {int(rng.integers(2, 6))}s 2S J=1/2"
            m = hm.initialize_hci_line_model(k, has_linear_background=bg, has_tails=tails)
            cat = {k: ([k], k, {})}
        else:
            all_ = [f"{el}{c} {k}" for c in LEVELS[el] for k, v in LEVELS[el][c].items() if v[0]]
            names = [str(k) for k in rng.permutation(all_)[:int(rng.integers(2, 5))]]
            peak = str(rng.choice(names)) if rng.random() < .7 else None
            m = hm.initialize_hci_composite_model("any lines", [hm.initialize_hci_line_model(k, has_tails=tails) for k in names], has_linear_background=bg, **({} if peak is None else dict(peak_component_name=peak)))
            cat = {"any lines": (names, peak or names[0], {})}
        todo = {list(cat)[0]: m}
    for key, m in todo.items():
        names, peak, ratios = cat[key]
        single = len(names) == 1
        ctx.case.update(model=key, background=bg, tails=tails, vary=vary)
        ctx.check(m._name == key and m.shortname == key, "models:name", f"{m._name} {m.shortname} {key}")
        P = m.make_params()
        # what may be given: one peak position, gain and resolution; the integrals; the background
        pp = pre(peak)
        half = {k for k in names if ratios and k.endswith("J=1/2")}
        free = {pp + "fwhm", pp + "peak_ph", pp + "dph_de"} | {pre(k) + "integral" for k in names if k not in half}
        if tails:
            free |= {pre(k) + t for k in names for t in ("tail_frac", "tail_tau", "tail_share_hi", "tail_tau_hi")}
        free |= set(ratios.values())
        bp = pre(key) if not single else pre(key)
        if bg:
            free |= {bp + "background", bp + "bg_slope"}
        independent = {k for k, v in P.items() if v.expr is None}
        ctx.same(sorted(independent), sorted(free), "models:independent parameters")
        if independent != free:
            continue
        for r in ratios.values():
            ctx.check(P[r].value == .5 and P[r].vary == vary and P[r].min == 0, "models:amplitude ratio", f"{P[r]}")
        gain = float(rng.choice([1, rng.uniform(.2, 5)]))
        es = {k: e_of(k) for k in names}
        fw = float(rng.uniform(.1, 1)) * (1 if es[peak] < 2000 else 3)
        fw = max(fw, max(es.values()) / 9999)          # (no line may be narrower than 1e-4 of its energy)
        ph = float(rng.uniform(.8, 1.2)) * es[peak] * gain
        vals = {pp + "fwhm": fw, pp + "peak_ph": ph, pp + "dph_de": gain}
        I = {k: float(10**rng.uniform(1, 5)) for k in names}
        vals.update({pre(k) + "integral": I[k] for k in names if k not in half})
        ratio = .5
        for r in ratios.values():
            if rng.random() < .5:
                ratio = vals[r] = float(rng.uniform(.1, 2))
        for k in half:
            I[k] = ratio * I[k.replace("J=1/2", "J=3/2")]
        T = {}
        if tails:
            for k in names:
                T[k] = (float(rng.choice([0, rng.uniform(.02, .4)])), float(fw * rng.uniform(1, 3)))
                T[k] = (T[k][0], min(T[k][1], es[k] / 10))
                vals.update({pre(k) + "tail_frac": T[k][0], pre(k) + "tail_tau": T[k][1], pre(k) + "tail_share_hi": 0., pre(k) + "tail_tau_hi": 1.})
        b0, b1 = 0., 0.
        if bg:
            b0, b1 = float(rng.uniform(0, 50)), float(rng.uniform(0, .02))
            vals.update({bp + "background": b0, bp + "bg_slope": b1})
        # bins around a random line, in pulse height
        mid = es[str(rng.choice(names))]
        step = .1 * np.hypot(fw, .1)
        E = mid + (np.arange(240) - float(rng.integers(60, 180))) * step
        x = (E - es[peak]) * gain + ph
        Q = m.make_params()
        for k, v in vals.items():
            Q[k].value = v
        y = m.eval(Q, bin_centers=x)
        want = b0 + b1 * np.arange(len(x))
        for k in names:
            want = want + I[k] * step * smear(E, es[k], fw, T.get(k))
        tol = 1e-7 if not any(t[0] for t in T.values()) else 2e-2
        top = sum(I[k] * step * smear(np.array([es[k]]), es[k], fw, None)[0] for k in names) + b0
        # (tails are convolved over a finite range of bins, and lines far from the bins are in the limits of rounding)
        ctx.count("bins", len(x))
        ctx.check(len(y) == len(x) and bool(np.all(np.abs(y - want) <= tol * top)), "models:value", f"worst {np.abs(y - want).max()} of {top} ({want.max()})")
        if not single:
            ctx.nontrivial(key, bg, tails, vary)
            for k in names:
                ctx.close(Q[pre(k) + "peak_ph"].value, (es[k] - es[peak]) * gain + ph, "models:separation", rtol=1e-7)
                ctx.close([Q[pre(k) + "fwhm"].value, Q[pre(k) + "dph_de"].value], [fw, gain], "models:shared", rtol=1e-12)
                ctx.close(Q[pre(k) + "integral"].value, I[k], "models:integral", rtol=1e-12)
            ctx.check(m.peak_prefix == pp, "models:peak", f"{m.peak_prefix} {pp}")
            ctx.close(m.peak_energy, es[peak], "models:peak energy", rtol=1e-7)


@monitor(8, 100)
def fits(ctx):
    """A fit of counts drawn from a model finds the parameters they were drawn with."""
    from mass.calibration import hci_models as hm
    import mass.calibration.hci_lines  # noqa
    rng = ctx.rng
    el = str(rng.choice(list(ZS)))
    he = bool(rng.random() < .5)
    m = hm.initialize_HeLike_complex_model(el, has_linear_background=True) if he else hm.initialize_HLike_2P_model(el, "2p", has_linear_background=True, vary_amp_ratio=bool(rng.random() < .5))
    key = f"{el}{ZS[el] - 1} 1s2s_2p Complex" if he else f"{el}{ZS[el]} 2p"
    names, peak, ratios = helike(el) if he else hlike(el, "2p")
    es = {k: e_of(k) for k in names}
    pp = pre(peak)
    fw = max(es[peak] / 1000, .5)
    vals = {pp + "fwhm": fw, pp + "peak_ph": es[peak] + .3 * fw, pp + "dph_de": 1.}
    I = {k: 40000. for k in names if not (ratios and k.endswith("J=1/2"))}
    vals.update({pre(k) + "integral": v for k, v in I.items()})
    vals[pre(key) + "background"] = 5.
    lo, hi = min(es.values()) - 10 * fw, max(es.values()) + 10 * fw
    x = np.arange(lo, hi, fw / 6)
    ctx.need(len(x) < 4000)
    P = m.make_params(**vals)
    y = rng.poisson(m.eval(P, bin_centers=x))
    start = dict(vals)
    start[pp + "peak_ph"] += .3 * fw
    start[pp + "fwhm"] *= 1.2
    S = m.make_params(**start)
    S[pp + "dph_de"].set(vary=False)
    r = m.fit(y, S, bin_centers=x)
    ctx.case.update(model=key, n=len(x))
    for k in [pp + "peak_ph", pp + "fwhm", pre(key) + "background"] + [pre(k) + "integral" for k in I]:
        g = r.params[k]
        ctx.check(g.stderr is not None and abs(g.value - vals[k]) < 7 * g.stderr, "fits:parameter", f"{k}: {g.value} +- {g.stderr}, truth {vals[k]}")
    ctx.nontrivial(key, int(y.sum()))
