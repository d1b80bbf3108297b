"""C27: detector and filter efficiencies are physical and compose multiplicatively."""
import warnings
import numpy as np
import xraydb
from uncertainties import ufloat, unumpy as unp
import mass.materials
from mass.materials import efficiency_models as em
from mass.materials import uncertainties_helpers as uh

from vlib.core import monitor

warnings.filterwarnings("ignore", message="Using UFloat")
BUILD = "fast"
RULE = ("Each case builds a film of 1-6 random elements (or a premade filter, or a tree of stacks) from exact, integer, array or uncertain thicknesses, areal densities, densities and fill fractions, and compares its efficiency at random energies (scalar, list, "
        "n-dimensional, repeated, unsorted) with exp(-sum of elemental attenuation x areal density) computed from xraydb's elemental tables, and its uncertainty with first-order propagation by hand. Non-trivial = several materials, uncertain inputs, a fill fraction, or nesting.")
ASSUMPTIONS = ["components of one stack have distinct names (adding a component replaces the one of the same name)",
               "numbers given without uncertainty to a film with none have 100% uncertainty, and in a film with some are exact, as documented",
               "xraydb's elemental attenuation table is taken as true"]

SYM = [xraydb.atomic_symbol(z) for z in range(1, 93)]
SYM = [s for s in SYM if xraydb.atomic_density(s) > 0]


def energies(rng):
    k = int(rng.integers(6))
    lo, hi = rng.choice([[200, 20000], [1000, 9000], [150, 700000 / 10]])
    if k == 0:
        e = float(rng.uniform(lo, hi))
        return e, np.array([e])
    if k == 1:
        e = [int(v) for v in rng.integers(int(lo), int(hi), int(rng.integers(1, 20)))]
        return e, np.array(e, float)
    if k == 2:
        e = rng.uniform(lo, hi, tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(2, 4)))))
        return e, e.copy()
    e = rng.uniform(lo, hi, int(rng.integers(1, 40)))
    if k == 3:
        e = np.sort(e)
    if k == 4:
        e = np.repeat(e, 2)
    return e, e.copy()


def as_given(rng, x, single=False):
    """The number(s) as some Python or numpy type holding exactly that value."""
    x = np.asarray(x, float)
    if x.ndim == 0:
        v = float(x)
        k = int(rng.integers(5))
        if k == 0 and v == int(v):
            return int(v)
        if k == 1 and single and float(np.float32(v)) == v:
            return np.float32(v)
        if k == 2:
            return np.float64(v)
        if k == 3 and v == int(v):
            return np.int64(v)
        return v
    return x.tolist() if rng.random() < .5 else x.copy()


def mu(sym, e, cache={}):
    # elemental mass attenuation in cm^2/g
    return np.asarray(xraydb.mu_elam(sym, np.ravel(e))).reshape(np.shape(e))


def values(rng, nom, kind):
    """(what to give, standard deviations, some are uncertain): nominal values given exactly, all uncertain or mixed."""
    nom = np.atleast_1d(nom)
    if kind == "exact":
        return as_given(rng, nom if len(nom) > 1 or rng.random() < .3 else nom[0]), np.zeros(len(nom)), False
    sd = nom * rng.uniform(.001, .3, len(nom))
    if kind == "mixed":
        keep = rng.random(len(nom)) < .5
        keep[int(rng.integers(len(nom)))] = True
        sd = np.where(keep, sd, 0)
        g = [ufloat(n, s) if k else float(n) for n, s, k in zip(nom, sd, keep)]
        return (g if rng.random() < .5 else np.array(g, dtype=object)), sd, True
    if len(nom) == 1 and rng.random() < .6:
        return ufloat(nom[0], sd[0]), sd, True
    u = unp.uarray(nom, sd)
    return (u if rng.random() < .5 else list(u)), sd, True


class Truth:
    """A film, by hand: symbols, areal densities, their standard deviations (independent), fill fraction and its standard deviation."""

    def __init__(self, syms, ad, sd, f=1., sf=0., absorber=False):
        self.syms, self.ad, self.sd, self.f, self.sf, self.absorber = list(syms), np.asarray(ad, float), np.asarray(sd, float), float(f), float(sf), absorber

    def depth(self, e):
        return sum(mu(s, e) * a for s, a in zip(self.syms, self.ad))

    def nominal(self, e):
        T = np.exp(-self.depth(e))
        return (1 - T) * self.f if self.absorber else T * self.f + (1 - self.f)

    def var(self, e):
        T = np.exp(-self.depth(e))
        d = sum((mu(s, e) * T * self.f * x)**2 for s, x in zip(self.syms, self.sd))
        return d + ((1 - T) * self.sf)**2


def polymer_film(al, oxide, po, dens):
    """(Truth, Truth with the shifted thicknesses of the known finding) of an Al film with oxide and polymer; sd are the full values."""
    syms = ["Al", "Al", "O", "C", "H", "N", "O"]
    ad = np.array([al, oxide, oxide, po, po, po, po]) * dens * 1e-7
    bad = np.array([al, oxide, po, po, po, po]) * np.asarray(dens)[:6] * 1e-7
    return Truth(syms, ad, ad, 1., 1.), Truth(syms[:6], bad, bad, 1., 1.)


SHIFTED = "polymer film thicknesses shifted"
_shifted = []


def shifted():
    """Whether AlFilmWithPolymer has the known finding: 6 thicknesses for 7 materials (the oxide's oxygen as thick as the polymer ...)."""
    if not _shifted:
        e = np.array([300., 600., 1000., 2000.])
        got = em.AlFilmWithPolymer("probe", 100., 900.)(e)
        t, bad = polymer_film(100., 3., 900., np.concatenate([[xraydb.atomic_density("Al")], 4. * OX, 1.42 * KAPTON]))

        def as_in(t):
            return np.allclose(got, t.nominal(e), rtol=1e-4, atol=0)
        _shifted.append(as_in(bad) and not as_in(t))
    return _shifted[0]


def random_film(rng, name="film", many=6, absorber=None):
    """(constructor arguments, Truth)"""
    n = int(rng.choice([1, 1, 1, 2, 3, many]))
    syms = [str(s) for s in rng.choice(SYM, n, replace=bool(rng.random() < .3))]
    rho0 = np.array([xraydb.atomic_density(s) for s in syms], float)
    kw = dict(name=name, material=syms[0] if n == 1 and rng.random() < .7 else (syms if rng.random() < .5 else np.array(syms)))
    dk = str(rng.choice(["default", "default", "exact", "exact", "uncertain"]))
    rho, srho = rho0, np.zeros(n)
    if dk != "default":
        rho = rho0 * rng.uniform(.5, 1.5, n)
        if rng.random() < .3:
            rho = np.maximum(1, np.round(rho))
        kw["density_g_per_cm3"], srho, _ = values(rng, rho, dk)
    vk = str(rng.choice(["exact", "exact", "uncertain", "mixed"]))
    scale = 10**rng.uniform(-1, 1)
    ad = np.array([scale / max(mu(s, 5000.), 1e-9) for s in syms]) * rng.uniform(.05, 1, n) / n
    one = n > 1 and vk != "mixed" and rng.random() < .25      # a single number for all materials
    if rng.random() < .5:
        t = ad / rho * 1e7
        if rng.random() < .3:
            t = np.ceil(t)
        if one:
            t = t[:1]
        kw["thickness_nm"], st, unc = values(rng, t, vk)
        t, st = (np.repeat(t, n), np.repeat(st, n)) if one else (t, st)
        if not unc and dk != "uncertain":
            st = t
        elif not unc:
            st = t     # exact thickness with an uncertain density: 100% of the thickness, as well as that of the density
        ad = t * 1e-7 * rho
        # thickness and density are independent
        sd = np.hypot(st * 1e-7 * rho, srho * t * 1e-7)
        shared = one and vk == "uncertain"
    else:
        if one:
            ad = ad[:1]
        kw["area_density_g_per_cm2"], sa, unc = values(rng, ad, vk)
        ad, sa = (np.repeat(ad, n), np.repeat(sa, n)) if one else (ad, sa)
        shared = one and vk == "uncertain"
        if not unc:
            # the thickness area/density is exact unless the density is uncertain, in which case only the (cancelling) density is
            sa = ad if dk != "uncertain" else np.zeros(n)
        sd = sa
    f, sf = 1., 0.
    fk = int(rng.integers(5))
    if fk == 0:
        f = float(rng.choice([0., .25, .5, 1., rng.random()]))
        kw["fill_fraction"] = as_given(rng, f)
        sf = f
    elif fk in (1, 2):
        f = float(rng.random())
        sf = f * .1
        kw["fill_fraction"] = ufloat(f, sf)
    elif fk == 3:
        kw["fill_fraction"] = ufloat(1, 0)
    else:
        sf = None      # as the function's default
    ab = bool(rng.random() < .3) if absorber is None else absorber
    if ab or rng.random() < .2:
        kw["absorber"] = ab
    return kw, Truth(syms, ad, sd, f, sf or 0, ab), sf is None, shared


def grab(kw):
    return {k: (repr(v), getattr(v, "dtype", None)) for k, v in kw.items()}


@monitor(260, 6000)
def films(ctx):
    rng = ctx.rng
    kw, truth, deffill, shared = random_film(rng)
    e, ea = energies(rng)
    ctx.case.update(energies=ea.ravel()[:5].tolist(), shape=ea.shape, **{k: repr(v) for k, v in kw.items()})
    before, e0 = grab(kw), (e.copy() if isinstance(e, np.ndarray) else e)
    if rng.random() < .5:
        film = em.Film(**kw)
        if deffill:
            truth.sf = 1.
    else:
        s = em.FilterStack("s")
        s.add_Film(**kw)
        film = s.components[kw["name"]]
    ctx.check(grab(kw) == before, "film:inputs changed", f"{before} became {grab(kw)}")
    got = film.get_efficiency(e)
    want = truth.nominal(ea)
    ctx.count("film_energies", ea.size)
    ctx.check(np.shape(got) == ea.shape, "film:shape", f"{np.shape(got)} for {ea.shape} energies")
    ctx.check(np.asarray(got).dtype == float, "film:dtype", f"{np.asarray(got).dtype}")
    ctx.close(got, want, "film:value", rtol=1e-8, atol=1e-13)
    ctx.check(np.all(got >= -1e-12) and np.all(got <= 1 + 1e-12), "film:between 0 and 1", f"{np.min(got)} to {np.max(got)}")
    u = film(e, uncertain=True)
    ctx.same(np.shape(u), ea.shape, "film:uncertain shape")
    ctx.close(unp.nominal_values(u), got, "film:uncertain nominal", rtol=1e-13, atol=1e-15)
    if not shared:
        ctx.close(unp.std_devs(u), truth.var(ea)**.5, "film:uncertainty", rtol=1e-6, atol=1e-13)
    ctx.same(film(e), got, "film:repeated")
    ctx.same(e, e0, "film:energies changed")
    # one by one, and in another order
    i = int(rng.integers(ea.size))
    ctx.close(film(float(ea.ravel()[i])), np.ravel(got)[i:i + 1], "film:one energy", rtol=1e-13, atol=0)
    p = rng.permutation(ea.size)
    ctx.close(film(ea.ravel()[p]), np.ravel(got)[p], "film:order", rtol=1e-13, atol=0)
    # its complement
    kw2 = dict(kw, absorber=not truth.absorber)
    ctx.close(em.Film(**kw2)(e) + got, np.ones(ea.shape), "film:absorbed plus transmitted", rtol=1e-12, atol=0)
    # the order of materials in a film does not matter
    if len(truth.syms) > 1 and not shared:
        q = rng.permutation(len(truth.syms))
        f2 = em.Film("r", [truth.syms[j] for j in q], area_density_g_per_cm2=unp.uarray(truth.ad[q], truth.sd[q]), fill_fraction=ufloat(truth.f, truth.sf), absorber=truth.absorber)
        u2 = f2(e, uncertain=True)
        ctx.close(unp.nominal_values(u2), got, "film:materials reordered", rtol=1e-9, atol=1e-13)
        ctx.close(unp.std_devs(u2), unp.std_devs(u), "film:materials reordered uncertainty", rtol=1e-6, atol=1e-13)
    if len(truth.syms) > 1 or not deffill or np.any(truth.sd > 0):
        ctx.nontrivial("film", len(truth.syms), truth.absorber, tuple(sorted(kw)), ea.ndim)


@monitor(120, 2500)
def layers(ctx):
    """Thickness adds; more of a filter transmits less; splitting a film changes nothing."""
    rng = ctx.rng
    e, ea = energies(rng)
    n = int(rng.integers(1, 4))
    syms = [str(s) for s in rng.choice(SYM, n)]
    t = np.array([10**rng.uniform(-1, .7) / max(mu(s, 5000.), 1e-9) for s in syms]) / n
    a = rng.random(n)
    rho = np.array([xraydb.atomic_density(s) for s in syms])
    how = int(rng.integers(2))

    def film(name, ad, **kw):
        if how:
            return em.Film(name, syms, area_density_g_per_cm2=ad, **kw)
        return em.Film(name, syms, thickness_nm=ad / rho * 1e7, **kw)
    ctx.case.update(material=syms, area=t.tolist(), split=a.tolist(), how=how)
    whole = film("w", t)(e)
    st = em.FilterStack("s")
    st.add(film("a", t * a))
    st.add(film("b", t * (1 - a)))
    ctx.close(st(e), whole, "layer:thickness adds", rtol=1e-9, atol=1e-14)
    per = em.FilterStack("p")
    for i, (s, x) in enumerate(zip(syms, t)):
        per.add_Film(f"f{i}", s, **(dict(area_density_g_per_cm2=float(x)) if how else dict(thickness_nm=float(x / rho[i] * 1e7))))
    ctx.close(per(e), whole, "layer:one film per material", rtol=1e-9, atol=1e-14)
    thicker = film("t", t * (1 + a))(e)
    ctx.check(np.all(thicker <= whole * (1 + 1e-12)), "layer:monotone", "a thicker filter transmits more")
    ctx.check(np.all(film("t", t * (1 + a), absorber=True)(e) >= film("w", t, absorber=True)(e) - 1e-12), "layer:monotone", "a thicker absorber absorbs less")
    ctx.close(film("z", t * 0)(e), np.ones(ea.shape), "layer:no thickness", rtol=0, atol=0)
    ctx.close(film("z", t * 0, absorber=True)(e), np.zeros(ea.shape), "layer:no thickness", rtol=0, atol=0)
    # a mesh is open over the part it does not fill
    f = float(rng.random())
    for ab in (False, True):
        full = film("m", t, absorber=ab)(e)
        ctx.close(film("m", t, fill_fraction=f, absorber=ab)(e), f * full + (0 if ab else 1 - f), "layer:fill fraction", rtol=1e-12, atol=1e-15)
    # twice the density at half the thickness
    d2 = rho * float(rng.uniform(.3, 3))
    ctx.close(em.Film("d", syms, thickness_nm=t / d2 * 1e7, density_g_per_cm3=d2)(e), whole, "layer:density", rtol=1e-9, atol=1e-14)
    ctx.close(em.Film("d", syms, area_density_g_per_cm2=t, density_g_per_cm3=d2)(e), whole, "layer:area density", rtol=1e-9, atol=1e-14)
    # contradictory descriptions are refused
    bad = [dict(thickness_nm=1., area_density_g_per_cm2=1e-4), {}]
    if n > 1:
        bad += [dict(thickness_nm=1., density_g_per_cm3=np.ones(n + 1))]
    for b in bad:
        ctx.check(ctx.raises(lambda: em.Film("x", syms, **b), Exception) is not None, "layer:refused", f"{b} accepted for {n} materials")
    ctx.count("splits")
    ctx.nontrivial("layer", n, how)


def premade(rng, name):
    """(function adding it to a stack, [Truth], constructor, its arguments)"""
    k = int(rng.integers(3))
    al_t = float(rng.choice([50., 100., 5000., rng.uniform(5, 20000)]))
    m = {"C": 12.011, "H": 1.0078, "N": 14.007, "O": xraydb.atomic_mass("O"), "Al": xraydb.atomic_mass("Al")}
    m = {s: xraydb.atomic_mass(s) for s in m}
    if k == 2:
        film = [6.7e-5, 2.6e-6, 7.2e-6, 1.7e-5, 1.7e-5]
        mesh = np.array([.705, .19, .09, .01, .005]) * 8 * 100e-4
        return em.LEX_HT, {}, "add_LEX_HT", [Truth(["C", "H", "N", "O", "Al"], film, np.array(film) * .03), Truth(["Fe", "Cr", "Ni", "Mn", "Si"], mesh, mesh * .02, .19, .01)]
    unc = False
    kw = {}
    s_al = al_t
    if rng.random() < .4:
        unc = True
        s_al = al_t * .04
        kw["Al_thickness_nm"] = ufloat(al_t, s_al)
    else:
        kw["Al_thickness_nm"] = as_given(rng, al_t)
    surf = 2 if k == 0 else 1
    if rng.random() < .4:
        surf = int(rng.integers(1, 3))
        kw["num_oxidized_surfaces"] = surf
    rho_al = xraydb.atomic_density("Al")
    if rng.random() < .3 and (k == 0 or True):
        rho_al = float(rng.choice([2.5, 2.7, 3.]))
        kw["Al_density_g_per_cm3"] = as_given(rng, rho_al)
    rho_ox = 4.0
    if rng.random() < .4:
        rho_ox = float(rng.choice([3., 3.5, 3.95]))
        kw["oxide_density_g_per_cm3"] = as_given(rng, rho_ox) if rng.random() < .7 else np.repeat(rho_ox, 2)
    fr = np.array([2 * m["Al"], 3 * m["O"]])
    fr = fr / fr.sum()
    syms = ["Al", "Al", "O"]
    ad = np.array([al_t * rho_al, surf * 3. * rho_ox * fr[0], surf * 3. * rho_ox * fr[1]]) * 1e-7
    rel = [s_al / al_t, 1, 1]
    if k == 1:
        po_t = float(rng.choice([200., 1000., rng.uniform(5, 5000)]))
        rel_p = 1.
        if rng.random() < .4:
            unc, rel_p = True, .07
            kw["polymer_thickness_nm"] = ufloat(po_t, po_t * rel_p)
        else:
            kw["polymer_thickness_nm"] = as_given(rng, po_t)
            rel_p = None
        rho_p = 1.42
        if rng.random() < .4:
            rho_p = float(rng.choice([1., 1.5, 1.39]))
            kw["polymer_density_g_per_cm3"] = as_given(rng, rho_p) if rng.random() < .7 else np.repeat(rho_p, 4)
        pf = np.array([22 * m["C"], 10 * m["H"], 2 * m["N"], 5 * m["O"]])
        pf = pf / pf.sum()
        if rng.random() < .3:
            pf = rng.dirichlet(np.ones(4))
            kw["polymer_fractions"] = pf.tolist() if rng.random() < .5 else pf.copy()
        syms += ["C", "H", "N", "O"]
        both = polymer_film(al_t, surf * 3., po_t, np.concatenate([[rho_al], rho_ox * fr, rho_p * pf]))
        ad = both[0].ad
        rel += [rel_p] * 4
    if unc:
        # exact numbers in a film with uncertain ones
        rel = [s_al / al_t if not isinstance(kw["Al_thickness_nm"], (int, float, np.number)) else 0, 0, 0] + ([0 if rel_p is None else rel_p] * 4 if k == 1 else [])
    else:
        rel = [1.] * len(syms)
    if k == 1 and shifted():
        t = both[1]
        rel = [rel[0], rel[1], rel[3], rel[3], rel[3], rel[3]]
        t.sd = t.ad * np.array(rel, float)
        t.common = slice(2, 6) if unc and rel[3] else None
        t.finding = True
        return em.AlFilmWithPolymer, kw, "add_AlFilmWithPolymer", [t]
    t = Truth(syms, ad, ad * np.array(rel, float), 1., 1.)
    t.common = slice(3, 7) if k == 1 and unc and rel[3] else None
    return (em.AlFilmWithOxide, em.AlFilmWithPolymer)[k], kw, ("add_AlFilmWithOxide", "add_AlFilmWithPolymer")[k], [t]


@monitor(160, 3000)
def filters(ctx):
    rng = ctx.rng
    cls, kw, adder, truths = premade(rng, "f")
    e, ea = energies(rng)
    ctx.case.update(cls=cls.__name__, **{k: repr(v) for k, v in kw.items()})
    before = grab(kw)
    if rng.random() < .5 and not (adder == "add_AlFilmWithPolymer" and "Al_density_g_per_cm3" in kw):
        s = em.FilterStack("s")
        getattr(s, adder)("f", **kw)
        f = s.components["f"]
    else:
        f = cls("f", **kw)
    ctx.check(grab(kw) == before, "filter:inputs changed", f"{before} became {grab(kw)}")
    got = f(e)
    want = np.prod([t.nominal(ea) for t in truths], axis=0)
    if getattr(truths[0], "finding", False):
        ctx.fail(SHIFTED, "the oxide's oxygen has the polymer's thickness, and the polymer's oxygen is missing")
    ctx.count("filter_energies", ea.size)
    # (atomic masses differ in the fifth digit)
    ctx.check(np.all(np.abs(got - want) <= 3e-5 * want * (1 + sum(t.depth(ea) for t in truths)) + 1e-100), "filter:value", f"worst {np.max(np.abs(got - want))}: {np.ravel(got)[:3]}, expected {np.ravel(want)[:3]}")
    ctx.check(np.all((got >= 0) & (got <= 1 + 1e-12)), "filter:between 0 and 1", f"{np.min(got)} to {np.max(got)}")
    u = f(e, uncertain=True)
    ctx.close(unp.nominal_values(u), got, "filter:uncertain nominal", rtol=1e-12, atol=1e-100)
    rel = np.zeros(ea.shape)
    for t in truths:
        T = t.nominal(ea)
        T0 = np.exp(-t.depth(ea))
        d = t.sd
        c = getattr(t, "common", None)
        v = 0
        if c is not None:    # one number behind all the polymer's elements
            v = sum(mu(s, ea) * x for s, x in zip(t.syms[c], d[c]))**2
            sy, d = t.syms[:c.start], d[:c.start]
        else:
            sy = t.syms
        v = v + sum((mu(s, ea) * x)**2 for s, x in zip(sy, d))
        rel = rel + (v * (T0 * t.f)**2 + ((1 - T0) * t.sf)**2) / np.maximum(T, 1e-300)**2
    big = want > 1e-100
    ctx.check(np.all(np.abs(unp.std_devs(u) - rel**.5 * want)[big] <= (1e-3 * rel**.5 * want)[big] + 1e-12), "filter:uncertainty", f"{np.ravel(unp.std_devs(u))[:3]}, expected {np.ravel(rel**.5 * want)[:3]}")
    if cls is not em.LEX_HT:
        for n in (0, 3):
            ctx.check(ctx.raises(lambda: cls("f", **dict(kw, num_oxidized_surfaces=n)), Exception) is not None, "filter:surfaces", f"{n} oxidized surfaces accepted")
    ctx.nontrivial("filter", cls.__name__, tuple(sorted(kw)))


def tree(rng, depth, log, prefix="t", made=[]):
    s = em.FilterStack(prefix)
    parts = []
    n = int(rng.integers(1, 5))
    for i in range(n):
        name = f"{prefix}.{i}"
        k = rng.random()
        if k < .25 and depth < 3:
            sub, sp = tree(rng, depth + 1, log, name)
            s.add(sub)
            parts += sp
        elif k < .5:
            cls, kw, adder, truths = premade(rng, name)
            if adder == "add_AlFilmWithPolymer":
                kw.pop("Al_density_g_per_cm3", None)
            getattr(s, adder)(name, **kw)
            parts.append(cls(name, **kw))
        else:
            kw, truth, d, shared = random_film(rng, name, 3)
            s.add_Film(**kw)
            kw.setdefault("fill_fraction", ufloat(1, 0))
            parts.append(em.Film(**kw))
    return s, parts


@monitor(90, 1500)
def stacks(ctx):
    rng = ctx.rng
    s, parts = tree(rng, 0, None)
    e, ea = energies(rng)
    ctx.case.update(parts=[repr(p) for p in parts], energies=ea.ravel()[:5].tolist())
    names0 = list(s.components)
    got = s(e)
    effs = [p(e) for p in parts]
    ctx.count("stack_parts", len(parts))
    ctx.check(np.shape(got) == ea.shape, "stack:shape", f"{np.shape(got)}")
    # (the same film made twice gives the same to rounding)
    ctx.close(got, np.prod(effs, axis=0), "stack:product", rtol=1e-11, atol=1e-100)
    ctx.check(np.all((got >= -1e-12) & (got <= 1 + 1e-12)), "stack:between 0 and 1", f"{got.min()} to {got.max()}")
    ctx.check(all(np.all(got <= f * (1 + 1e-12) + 1e-12) for f in effs), "stack:below each part", "the stack transmits more than one of its parts")
    u = s(e, uncertain=True)
    ctx.close(unp.nominal_values(u), got, "stack:uncertain nominal", rtol=1e-12, atol=1e-100)
    ctx.close(s.get_efficiency(e, uncertain=False), got, "stack:call", rtol=0, atol=0)
    us = [p(e, uncertain=True) for p in parts]
    rel = sum((unp.std_devs(x) / np.maximum(unp.nominal_values(x), 1e-300))**2 for x in us)**.5
    ok = np.min([unp.nominal_values(x) for x in us], axis=0) > 1e-60
    if ok.any():
        ctx.close(unp.std_devs(u)[ok], (rel * got)[ok], "stack:uncertainty", rtol=1e-6, atol=1e-13)
    # any order, any nesting
    p = rng.permutation(len(parts))
    s2, sub = em.FilterStack("other"), em.FilterStack("sub")
    for i, j in enumerate(p):
        (sub if i % 2 and len(p) > 1 else s2).add(parts[j])
    if sub.components:
        s2.add(sub)
    ctx.close(s2(e), got, "stack:order and nesting", rtol=1e-11, atol=1e-100)
    # one component in two places is the same component
    w = em.FilterStack("w")
    one = em.FilterStack("one")
    one.add(parts[0])
    w.add(one)
    w.add(parts[0])
    u2 = w(e, uncertain=True)
    x = us[0]
    ctx.close(unp.std_devs(u2), 2 * unp.std_devs(x) * np.abs(unp.nominal_values(x)), "stack:shared component", rtol=1e-9, atol=1e-13)
    ctx.check(list(s.components) == names0 and len(s.components) == len(set(names0)), "stack:components", f"{names0} became {list(s.components)}")
    ctx.check(ctx.raises(lambda: em.FilterStack("none")(e), Exception) is not None, "stack:empty", "an empty stack has an efficiency")
    ctx.check(ctx.raises(lambda: s.add("Au"), Exception) is not None, "stack:add", "a string is added as a component")
    ctx.check(all(n in repr(s) for n in names0), "stack:repr", "a component is missing in the description")
    if rng.random() < .2 and ea.ndim == 1:
        import matplotlib
        matplotlib.use("Agg")
        import pylab as plt
        fig, ax = plt.subplots()
        if rng.random() < .7:
            _, ax2 = plt.subplots()       # now the current axis
            s.plot_efficiency(e, ax=ax)
            ctx.check(not ax2.lines and not ax2.get_title(), "stack:plot", "another axis than given is drawn on")
        else:
            s.plot_efficiency(e)
            ctx.check(not ax.lines, "stack:plot", "an old figure is drawn on")
            ax = plt.gca()
        lines = ax.get_lines()
        ctx.check("(eV)" in ax.get_xlabel() and "%" in ax.get_ylabel() and s.name in ax.get_title(), "stack:plot labels", f"{ax.get_xlabel()} {ax.get_ylabel()} {ax.get_title()}")
        ctx.check([t.get_text() for t in ax.get_legend().get_texts()] == ["total"] + [c.name for c in s.components.values()], "stack:plot legend", "")
        for l in lines:
            ctx.same(np.asarray(l.get_xdata(), float), np.asarray(ea, float), "stack:plot energies")
        ctx.check(len(lines) == 1 + len(s.components), "stack:plot", f"{len(lines)} curves")
        ctx.close(np.asarray(lines[0].get_ydata(), float), got * 100, "stack:plot", rtol=1e-12, atol=0)
        for l, c in zip(lines[1:], s.components.values()):
            ctx.close(np.asarray(l.get_ydata(), float), c(e) * 100, "stack:plot parts", rtol=1e-12, atol=0)
        plt.close("all")
    ctx.nontrivial("stack", len(parts), len(names0))


def leaves(s):
    if isinstance(s, em.Film):
        return [s]
    return [x for c in s.components.values() for x in leaves(c)]


def shares(**n):
    m = np.array([k * xraydb.atomic_mass(s) for s, k in n.items()])
    return m / m.sum()


OX = shares(Al=2, O=3)
KAPTON = shares(C=22, H=10, N=2, O=5)
LAYERS = {   # thicknesses in nm, relative uncertainties
    "EBIT 2018": [("abs", "Au", 965.5, .03), ("ox", 112.5, .02), ("ox", 108.5, .02), ("ox", 102.6, .02), ("film", "Ni", 15e3, 2 / 15, .17, .01), ("lex",), ("lex",)],
    "RAVEN1 2019": [("abs", "Bi", 4400., 1), ("poly", 108.4, 206.4), ("poly", 108.4, 206.4), ("ox", 1000.), ("film", "Be", 200e3, 1), ("ox", 5000.), ("film", "Be", 200e3, 1)],
    "Horton 2018": [("abs", "Au", 965.5, 1), ("ox", 5000.), ("ox", 5000.), ("ox", 12700.), ("lex",)],
}


@monitor(24, 240)
def instruments(ctx):
    """The premade instrument models are the product of their films."""
    rng = ctx.rng
    k = list(mass.materials.filterstack_models)
    name = k[ctx.index % len(k)]
    s = mass.materials.filterstack_models[name]
    if rng.random() < .3:
        s = em.get_filter_stacks_dict()[name]
    e, ea = energies(rng)
    ctx.case.update(model=name, energies=ea.ravel()[:5].tolist())
    ctx.check(s.name == name, "instrument:name", f"{s.name} found as {name}")
    parts = leaves(s)
    want = np.ones(ea.shape)
    for f in parts:
        n = len(f.material) - (isinstance(f, em.AlFilmWithPolymer) and shifted())
        ctx.check(n == len(f.thickness_cm) and len(f.density_g_per_cm3) == len(f.material), "instrument:materials", f"{f.name}: {f.material}, {f.thickness_cm}")
        t = Truth(f.material[:n], unp.nominal_values(f.density_g_per_cm3)[:n] * unp.nominal_values(f.thickness_cm), np.zeros(n), f.fill_fraction.nominal_value, 0, f.absorber)
        want = want * t.nominal(ea)
    got = s(e)
    ctx.count("instrument_films", len(parts))
    ctx.close(got, want, "instrument:value", rtol=1e-9, atol=1e-100)
    ctx.check(np.all((got >= 0) & (got <= 1)), "instrument:between 0 and 1", f"{got.min()} to {got.max()}")
    # as documented, layer by layer
    doc = []
    for kind, *v in LAYERS[name]:
        if kind == "ox":
            t = Truth(["Al", "Al", "O"], np.array([v[0] * xraydb.atomic_density("Al"), 24 * OX[0], 24 * OX[1]]) * 1e-7, np.zeros(3))
            t.sd[0] = t.ad[0] * (v[1] if len(v) > 1 else 1)
            t.sf = 1.
            if len(v) == 1:
                t.sd[1:] = t.ad[1:]
        elif kind == "poly":
            t, bad = polymer_film(v[0], 3., v[1], np.concatenate([[xraydb.atomic_density("Al")], 4 * OX, 1.42 * KAPTON]))
            if shifted():
                t = bad
                ctx.fail(SHIFTED, f"{name} has a film whose oxide's oxygen has the polymer's thickness, and whose polymer has no oxygen")
        elif kind == "lex":
            film, mesh = np.array([6.7e-5, 2.6e-6, 7.2e-6, 1.7e-5, 1.7e-5]), np.array([.705, .19, .09, .01, .005]) * .08
            doc.append(Truth(["C", "H", "N", "O", "Al"], film, film * .03))
            t = Truth(["Fe", "Cr", "Ni", "Mn", "Si"], mesh, mesh * .02, .19, .01)
        else:
            ad = np.array([v[1] * 1e-7 * xraydb.atomic_density(v[0])])
            t = Truth([v[0]], ad, ad * v[2], *v[3:5], absorber=kind == "abs")
        doc.append(t)
    want = np.prod([t.nominal(ea) for t in doc], axis=0)
    ctx.check(np.all(np.abs(got - want) <= 3e-5 * want * (1 + sum(t.depth(ea) for t in doc)) + 1e-100), "instrument:layers", f"{got.ravel()[:3]}, the documented layers give {want.ravel()[:3]}")
    sd = sum(t.var(ea) / np.maximum(t.nominal(ea), 1e-300)**2 for t in doc)**.5 * want
    ctx.check(np.all(np.abs(unp.std_devs(s(e, uncertain=True)) - sd)[want > 1e-100] <= (1e-3 * sd)[want > 1e-100] + 1e-12), "instrument:uncertainty", f"{unp.std_devs(s(e, uncertain=True)).ravel()[:3]}, the documented layers give {sd.ravel()[:3]}")
    ctx.check(sum(f.absorber for f in parts) == 1, "instrument:absorber", f"{sum(f.absorber for f in parts)} absorbers")
    u = s(e, uncertain=True)
    ctx.close(unp.nominal_values(u), got, "instrument:uncertain", rtol=1e-12, atol=1e-100)
    ctx.nontrivial("instrument", name)


@monitor(80, 1500)
def helpers(ctx):
    rng = ctx.rng
    v = float(rng.choice([0., 1., 3., 1e-7, float(10**rng.uniform(-8, 8))]))
    x = as_given(rng, v, True)
    ctx.case.update(x=repr(x))
    u = uh.ensure_uncertain(x)
    ctx.check(u.nominal_value == v and u.std_dev == v, "helper:scalar", f"{u!r} from {x!r}")
    f = float(rng.choice([0, .03, 1]))
    if True:
        w = uh.with_fractional_uncertainty(x, f)
        ctx.check(w.nominal_value == v and abs(w.std_dev - v * f) <= 1e-7 * v, "helper:fraction", f"{w!r} from {x!r}")
    uf = ufloat(abs(v), .1)
    ctx.check(uh.ensure_uncertain(uf) is uf, "helper:kept", "an uncertain number is replaced")
    a = rng.random(int(rng.integers(1, 6)))
    if rng.random() < .3:
        a = (a * 100).astype(int)
    a0 = a.copy()
    r = uh.ensure_uncertain(a)
    ctx.close(unp.nominal_values(r), a, "helper:array", rtol=0, atol=0)
    ctx.close(unp.std_devs(r), a, "helper:array", rtol=0, atol=0)
    r = uh.with_fractional_uncertainty(a, f)
    ctx.close(unp.nominal_values(r), a, "helper:array", rtol=0, atol=0)
    ctx.close(unp.std_devs(r), a * f, "helper:array", rtol=1e-15, atol=0)
    ctx.same(a, a0, "helper:changed")
    m = np.array([ufloat(q, .5) if rng.random() < .5 else float(q) for q in a] + [ufloat(2, 1)], dtype=object)
    m = m[rng.permutation(len(m))]
    r = uh.ensure_uncertain(m)
    ctx.close(unp.nominal_values(r), unp.nominal_values(m), "helper:mixed", rtol=0, atol=0)
    ctx.close(unp.std_devs(r), unp.std_devs(m), "helper:mixed", rtol=0, atol=0)
    for b in ("1", None, [1.]):
        ctx.check(ctx.raises(lambda: uh.ensure_uncertain(b), Exception) is not None, "helper:refused", f"{b!r} accepted")
    ctx.count("helpers")
    ctx.nontrivial("helper", type(x).__name__, a.dtype.kind)
