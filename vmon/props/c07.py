"""Units attached to inputs never change the system that is described

RULE: a case is one parameterisation in which a random subset of the
dimensional arguments carries random units; an execution compares every
attribute and the positions with those of the same orbit given in the default
units; non-trivial when at least one conversion factor is not one.
"""

import astropy.constants as const
import astropy.units as u
import numpy as np

from vmon import gen, ref
from vmon.env import pt, xo
from vmon.lib import KO, fn

from exoplanet.units import has_unit, to_unit, with_unit

CASES = {"quick": 700, "thorough": 5000}
MIN = {"equivalent": 2000, "conversion": 200, "protocol": 100,
       "no-leak": 100, "independent": 100}

CHOICES = {
    "period": (u.day, [u.day, u.hour, u.yr, u.s, u.minute]),
    "a": (u.R_sun, [u.R_sun, u.au, u.km, u.R_jup, u.m]),
    "m_planet": (u.M_sun, [u.M_sun, u.M_jup, u.M_earth, u.kg, u.g]),
    "m_star": (u.M_sun, [u.M_sun, u.M_jup, u.kg, u.M_earth]),
    "r_star": (u.R_sun, [u.R_sun, u.R_jup, u.km, u.R_earth, u.au]),
    "rho_star": (u.g / u.cm**3, [u.g / u.cm**3, u.kg / u.m**3,
                                 u.M_sun / u.R_sun**3,
                                 u.M_jup / u.R_jup**3]),
    "duration": (u.day, [u.day, u.hour, u.minute, u.s]),
}

# conversion factors that do not come from the code under test
SI = {
    u.day: 86400.0, u.hour: 3600.0, u.minute: 60.0, u.s: 1.0,
    u.yr: 365.25 * 86400.0, u.R_sun: ref.R_SUN_M, u.au: ref.AU_M, u.km: 1e3,
    u.m: 1.0, u.R_jup: ref.R_JUP_M, u.R_earth: ref.R_EARTH_M,
    u.M_sun: ref.GM_SUN / ref.G_SI, u.M_jup: ref.GM_JUP / ref.G_SI,
    u.M_earth: ref.GM_EARTH / ref.G_SI, u.kg: 1.0, u.g: 1e-3,
    u.g / u.cm**3: 1000.0, u.kg / u.m**3: 1.0,
    u.M_sun / u.R_sun**3: ref.GM_SUN / ref.G_SI / ref.R_SUN_M**3,
    u.M_jup / u.R_jup**3: ref.GM_JUP / ref.G_SI / ref.R_JUP_M**3,
}

ATTRS = ("period", "a", "rho_star", "r_star", "m_star", "m_planet", "b",
         "incl", "t0", "t_periastron")


def run_case(rec, rng, i):
    if i % 6 == 5:
        protocol(rec, rng)
        return
    with_dur = i % 4 == 1
    t = pt.dvector("t")
    if with_dur:
        kw, kind = duration_inputs(rng)
        desc = dict(kind=kind)
    else:
        spec = gen.Spec(rng, tbig=False)
        kw, o = spec.draw(rng)
        desc = spec.describe()
    rec.ctx["config"] = desc
    dims = [k for k in kw if k in CHOICES]
    labelled = {}
    for k in dims:
        if rng.random() < 0.75:
            base, opts = CHOICES[k]
            labelled[k] = opts[int(rng.integers(len(opts)))]
    if not labelled and dims:
        labelled[dims[0]] = CHOICES[dims[0]][1][-1]
    deprecated = {}
    if not with_dur:
        for k, arg in (("m_planet", "m_planet_units"),
                       ("rho_star", "rho_star_units")):
            if k in labelled and rng.random() < 0.3:
                deprecated[arg] = labelled[k]
    rec.ctx["inputs"] = {k: np.asarray(v).tolist() for k, v in kw.items()}
    rec.ctx["units"] = {k: str(v) for k, v in labelled.items()}

    def outs(orb):
        return [getattr(orb, k) for k in ATTRS] + list(
            orb.get_relative_position(t)) + list(orb.get_star_position(t)) + [
            orb.get_radial_velocity(t)]

    tv = rng.uniform(-20, 20, 7)
    symbolic = rng.random() < 0.4
    with rec.product("plain orbit"):
        a = fn(rng, [t], outs(KO(**kw)), mode="plain")(tv)
    with rec.product("orbit with units"):
        kk, raw, syms, vals = {}, {}, [], []
        for k, v in kw.items():
            if k not in labelled:
                kk[k] = v
                continue
            factor = SI[CHOICES[k][0]] / SI[labelled[k]]
            x = np.asarray(v) * factor
            if symbolic:
                s = (pt.dvector if x.ndim else pt.dscalar)(k)
                syms.append(s)
                vals.append(x)
                x = s
            else:
                x = gen.as_user_input(rng, x)
            arg = k + "_units"
            if arg in deprecated:
                kk[k] = x
                kk[arg] = labelled[k]
            else:
                kk[k] = with_unit(x, labelled[k])
        orb = KO(**kk)
        oo = outs(orb)
        b = fn(rng, syms + [t], oo, mode="plain")(*vals, tv)
    rec.seen(repr(desc), *[np.asarray(v) for v in kw.values()],
             repr(rec.ctx["units"]),
             sample=dict(inputs=kw, units=rec.ctx["units"]))
    names = list(ATTRS) + ["x", "y", "z", "xs", "ys", "zs", "rv"]
    for k, x, y in zip(names, a, b):
        sc = np.max(np.abs(x)) if x.size else 0.0
        tol = 1e-8 * sc + 1e-300
        if k in ("x", "y", "z"):
            tol = 1e-7 * np.max(np.abs(a[1]))
        elif k in ("xs", "ys", "zs"):
            tol = 1e-7 * np.max(np.abs(a[1]))
        elif k in ("t0", "t_periastron"):
            tol = 1e-8 * np.max(np.abs(a[0])) + 1e-8 * sc
        elif k in ("b", "incl"):
            tol = 1e-6
        elif k == "rv":
            tol = 1e-6 * np.max(np.abs(x)) + 1e-12
        elif k in ("m_star", "rho_star"):
            tol = 1e-7 * np.max(np.abs(x))
        rec.close("equivalent", np.squeeze(y), np.squeeze(x), tol, what=k)

    # the same labelled tensors can be used again, and what comes out is in
    # the standard units and carries no label that would convert it twice
    with rec.product("second orbit"):
        # (the deprecated arguments label the caller's own variable)
        again = orb if deprecated else KO(**kk)
        c = fn(rng, syms + [t], outs(again), mode="plain")(*vals, tv)
    for k, x, y in zip(names, b, c):
        rec.close("independent", np.squeeze(y), np.squeeze(x), 0.0, what=k)
    for k in ("period", "a", "m_star", "r_star", "m_planet"):
        # an attribute passed on must mean the same number again
        with rec.product("no leak"):
            val = getattr(orb, k)
            conv = to_unit(val, CHOICES[k][0])
            p, q = fn(rng, syms + [t], [val * 1.0, conv * 1.0],
                      mode="plain")(*vals, tv)
        rec.close("no-leak", q, p, 1e-13 * np.max(np.abs(p)) + 1e-300, what=k)


def duration_inputs(rng):
    n = gen.pick(rng, [None, 1, 2, 3])
    sz = () if n is None else (n,)
    P = np.exp(rng.uniform(np.log(2), np.log(300), sz))
    k = rng.uniform(0.01, 0.2, sz)
    if rng.random() < 0.6:
        kw = dict(period=P, duration=P * rng.uniform(0.005, 0.05, sz),
                  b=rng.uniform(0, 0.9, sz), ror=k)
        if rng.random() < 0.8:
            kw["r_star"] = np.asarray(rng.uniform(0.2, 3))
        if rng.random() < 0.5:
            kw["m_planet"] = 10 ** rng.uniform(-7, -5, sz)
        return kw, "circular duration"
    from vmon.props.c05 import winn_duration

    while True:
        rs = float(rng.uniform(0.5, 2))
        ms = float(rng.uniform(0.5, 2))
        a = ref.a_from_period(P, ms)
        e = rng.uniform(0, 0.5, sz)
        w = rng.uniform(-3, 3, sz)
        b = rng.uniform(0.2, 0.8, sz)
        if np.all(a / rs * (1 - e) > 3):
            T = winn_duration(P, a / rs, e, w, b, k)
            if np.all(np.isfinite(T)):
                break
        P = P * 1.3
    kw = dict(period=P, duration=T, ecc=e, omega=w, ror=k,
              m_star=np.asarray(ms), r_star=np.asarray(rs))
    return kw, "eccentric duration"


def protocol(rec, rng):
    """with_unit / has_unit / to_unit on their own"""
    units = list(SI)
    for _ in range(6):
        a = units[int(rng.integers(len(units)))]
        same = [q for q in units if q.is_equivalent(a)]
        b = same[int(rng.integers(len(same)))]
        x = rng.normal(size=int(rng.integers(1, 4)))
        form = gen.pick(rng, ["sym", "const", "float"])
        with rec.product("with_unit"):
            s = pt.dvector("s")
            obj = {"sym": s, "const": x, "float": [float(q) for q in x]}[form]
            rec.check("protocol", not has_unit(obj), what="unlabelled")
            rec.check("protocol", to_unit(obj, b) is obj,
                      what="numbers without units are left alone")
            lab = with_unit(obj, a)
            rec.check("protocol", has_unit(lab), what="labelled")
            got = fn(rng, [s], to_unit(lab, b) * 1.0, mode="plain")(x)
            rec.check("protocol", has_unit(lab), what="still labelled")
            got2 = fn(rng, [s], to_unit(lab, b) * 1.0, mode="plain")(x)
        rec.seen("protocol", x, str(a), str(b))
        rec.close("conversion", got, x * SI[a] / SI[b],
                  1e-9 * np.abs(x * SI[a] / SI[b]), units=(str(a), str(b)))
        rec.close("conversion", got2, got, 0.0)
        rec.expect_raise("protocol", TypeError, lambda: with_unit(lab, b),
                         what="a second unit")
        wrong = [q for q in units if not q.is_equivalent(a)]
        w = wrong[int(rng.integers(len(wrong)))]
        rec.expect_raise("protocol", (u.UnitConversionError, u.UnitsError),
                         lambda: to_unit(lab, w), what="incompatible units")
    # a label stays with the object that it was put on
    for v in (1.0, 2.0, 0.0, [1.0, 2.0]):
        with rec.product("with_unit"):
            lab = with_unit(v, u.M_jup)
            lab2 = with_unit(v, u.R_sun)
            plain = fn(rng, [], to_unit(pt.as_tensor_variable(v), u.M_sun)
                       * 1.0, mode="plain")()
            conv = fn(rng, [], to_unit(lab2, u.m) * 1.0, mode="plain")()
        rec.close("protocol", plain, v, 0.0, what="label on an equal literal")
        w = np.asarray(v) * ref.R_SUN_M
        rec.close("protocol", conv, w, 1e-9 * np.abs(w))
    # the deprecated arguments and a label at the same time
    x = with_unit(1.0, u.M_jup)
    rec.expect_raise(
        "protocol", TypeError,
        lambda: KO(period=1.0, m_planet=x, m_planet_units=u.M_jup),
        what="unit given twice",
    )
    # incompatible dimensions must not go unnoticed
    rec.expect_raise(
        "protocol", (u.UnitConversionError, u.UnitsError),
        lambda: KO(period=with_unit(1.0, u.M_jup)), what="period in M_jup",
    )
    rec.expect_raise(
        "protocol", (u.UnitConversionError, u.UnitsError),
        lambda: KO(period=3.0, m_star=with_unit(1.0, u.R_sun), r_star=1.0),
        what="m_star in R_sun",
    )
