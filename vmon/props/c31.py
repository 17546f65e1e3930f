"""What is contradictory, incomplete or not supported is refused

RULE: a case is a run of random requests: orbits from any subset of the
documented arguments, with zeros among the values and in many forms, and calls
with what the documentation rules out; an execution is one request, which has
to be refused exactly when the documentation rules it out, and otherwise has to
keep every value as it was given; non-trivial when two or more arguments are
given.
"""

import astropy.units as u
import numpy as np
import pymc as pm

from vmon import gen
from vmon.core import CaseTimeout, Stop
from vmon.env import pt, pytensor, xo
from vmon.lib import KO, PLAIN

from exoplanet.units import with_unit

CASES = {"quick": 220, "thorough": 12000}
MIN = {"refused": 3000, "accepted": 400, "kept": 3000, "zeros": 500,
       "only:epoch": 20, "only:orientation": 60, "only:size": 20,
       "only:star": 150, "only:shape": 20, "only:duration": 20,
       "ttv": 200, "calls": 500, "units": 200, "in-model": 300}
ASSUMPTIONS = ["the rules of the class documentation of KeplerianOrbit"]

STAR = ("m_star", "r_star", "rho_star")
ALL = ["period", "a", "t0", "t_periastron", "incl", "b", "duration", "ecc",
       "omega", "sin_omega", "cos_omega", "Omega", "m_planet", "m_star",
       "r_star", "rho_star", "ror"]
PROB = dict(period=0.75, a=0.3, t0=0.4, t_periastron=0.25, incl=0.25, b=0.4,
            duration=0.25, ecc=0.5, omega=0.5, sin_omega=0.2, cos_omega=0.2,
            Omega=0.3, m_planet=0.4, m_star=0.35, r_star=0.4, rho_star=0.3,
            ror=0.3)


def reasons(S):
    """(why a set of arguments is ruled out, or nothing; is it judged?)"""
    why = set()
    judged = True
    S = set(S)
    if not S & {"period", "a"}:
        why.add("size")
    circular = "ecc" not in S
    omegas = S & {"omega", "sin_omega", "cos_omega"}
    if circular:
        if omegas:
            judged = False  # without a meaning, and nothing is said of it
    else:
        if "omega" in S:
            if len(omegas) == 2:
                judged = False
            if len(omegas) == 3:
                why.add("shape")
        elif len(omegas) != 2:
            why.add("shape")
    if circular and "duration" in S:
        # the duration takes the place of the semimajor axis
        if "b" not in S:
            why.add("duration")
        if "period" not in S or "a" in S:
            why.add("duration")
        if S & {"m_star", "rho_star"}:
            why.add("star")
        if "incl" in S:
            why.add("orientation")
    else:
        if {"period", "a"} <= S:
            if S & {"m_star", "rho_star"}:
                why.add("star")
        else:
            stars = S & set(STAR)
            if len(stars) == 3 or stars in ({"m_star"}, {"r_star"}):
                why.add("star")
        if len(S & {"incl", "b", "duration"}) > 1:
            why.add("orientation")
    if {"t0", "t_periastron"} <= S:
        why.add("epoch")
    return why, judged


def values(rng, n, zeros):
    def U(lo, hi):
        return rng.uniform(lo, hi, n)

    w = U(-3, 3)
    v = dict(
        period=U(1, 50), a=U(5, 50), t0=U(-5, 5), t_periastron=U(-5, 5),
        incl=U(1.4, 1.57), b=U(0, 1), duration=U(0.05, 0.2),
        ecc=U(0, 0.8), omega=w, sin_omega=np.sin(w), cos_omega=np.cos(w),
        Omega=U(-3, 3), m_planet=U(0, 0.1), ror=U(0.01, 0.2))
    for k in STAR:
        v[k] = rng.uniform(0.5, 2)
    z = []
    if zeros:
        # none of these is the same as an argument that is not given
        for k in ("t0", "t_periastron", "b", "incl", "ecc", "omega", "Omega",
                  "m_planet", "ror", "duration"):
            if rng.random() < 0.5:
                v[k] = v[k] * 0.0
                z.append(k)
        if "omega" in z:
            v["sin_omega"], v["cos_omega"] = np.sin(v["omega"]), np.cos(
                v["omega"])
    return v, z


def dress(rng, x):
    k = int(rng.integers(7))
    x = np.asarray(x, dtype=float)
    if k == 0:
        return float(x) if x.ndim == 0 else x.tolist()
    if k == 1:
        return x
    if k == 2:
        return pt.constant(x)
    if k == 3:
        return pytensor.shared(x)
    if k == 4:
        return pt.constant(x) * 1.0
    if k == 5 and np.all(x == np.round(x)):
        return int(x) if x.ndim == 0 else [int(q) for q in x]
    return np.float64(x) if x.ndim == 0 else tuple(float(q) for q in x)


def refusal(rec, rule, call, **w):
    rec.check(rule, *_refused(call), **w)


def _refused(call):
    try:
        call()
    except (CaseTimeout, Stop, MemoryError):
        raise
    except Exception:
        return (True,)
    return (False,)


def orbit(rec, rng):
    n = gen.pick(rng, [None, None, 1, 2, 3])
    S = [k for k in ALL if rng.random() < PROB[k]]
    if rng.random() < 0.85:
        # close to what is accepted
        S = gen.pick(rng, [["period"], ["a"], ["period", "a"]])
        S = S + gen.pick(rng, [[], ["t0"], ["t_periastron"],
                               ["t0", "t_periastron"]],
                         [0.3, 0.3, 0.25, 0.15])
        S = S + gen.pick(rng, [[], ["b"], ["incl"], ["duration"],
                               ["b", "duration", "ror"]])
        S = S + gen.pick(rng, [[], [], ["ecc", "omega"],
                               ["ecc", "sin_omega", "cos_omega"]])
        S = S + gen.pick(rng, [[], ["rho_star"], ["m_star", "r_star"],
                               ["r_star", "rho_star"], ["r_star"],
                               ["m_star", "rho_star"]])
        S = S + gen.pick(rng, [[], ["m_planet"], ["Omega"]])
        if rng.random() < 0.5:
            k = gen.pick(rng, ALL)
            S = [q for q in S if q != k] if k in S else S + [k]
    S = list(dict.fromkeys(S))
    rng.shuffle(S)
    why, judged = reasons(S)
    v, z = values(rng, () if n is None else n, rng.random() < 0.5)
    kw = {k: dress(rng, v[k]) for k in S}
    if rng.random() < 0.2:
        # an argument that is given as nothing is not given
        for k in ALL:
            if k not in kw and k != "m_planet" and rng.random() < 0.3:
                kw[k] = None
    z = [k for k in z if k in S]
    rec.event("zeros", bool(z))
    cls = KO
    if rng.random() < 0.2:
        cls = xo.orbits.TTVOrbit
        kw["ttvs"] = [np.zeros(3) for _ in range(n or 1)]
        rec.event("ttv")
    w = dict(given=sorted(S), zeros=sorted(z), why=sorted(why), planets=n,
             cls=cls.__name__)
    inside = rng.random() < 0.2
    rec.event("in-model", inside)

    def call():
        if inside:
            with pm.Model():
                return cls(**kw)
        return cls(**kw)

    rec.seen(*sorted(S), *sorted(z), n, cls.__name__,
             nontrivial=len(S) > 1, sample=w)
    if not judged:
        rec.event("unjudged")
        if why:
            return
        call()
        return
    if why:
        if len(why) == 1:
            rec.event("only:" + next(iter(why)))
        refusal(rec, "refused", call, **w)
        return
    with rec.product("build", **w):
        o = call()
    rec.check("accepted", isinstance(o, cls), **w)
    names = [k for k in S if k not in ("ror", "duration")]
    if "ecc" in S and "duration" in S:
        names.append("duration")
    with rec.product("read", **w):
        got = pytensor.function(
            [], [pt.as_tensor(getattr(o, k)) for k in names], mode=PLAIN)()
    for k, g in zip(names, got):
        want = np.asarray(v[k], dtype=float)
        g = np.asarray(g)
        try:
            good = np.allclose(g, want, rtol=1e-12, atol=1e-13)
        except ValueError:
            good = False
        rec.check("kept", good, what=k, got=g, want=want, **w)
    # what is not given is the default or follows from the rest
    if not why and "ecc" not in S:
        rec.check("kept", o.ecc is None, what="circular", **w)
    if "Omega" not in S:
        rec.check("kept", o.Omega is None, what="node", **w)


def timing(rec, rng):
    n = int(rng.integers(1, 4))
    P = rng.uniform(3, 9, n)
    tt = [1.0 + p * np.arange(4) for p in P]
    tv = [np.zeros(4) for _ in P]
    cls = xo.orbits.TTVOrbit
    refusal(rec, "refused", lambda: cls(period=P), cls="TTVOrbit",
            given="neither")
    refusal(rec, "refused", lambda: cls(period=P, ttvs=tv, transit_times=tt),
            cls="TTVOrbit", given="both")
    refusal(rec, "refused", lambda: cls(transit_times=tt, t_periastron=P),
            cls="TTVOrbit", given="t_periastron with times")
    refusal(rec, "refused", lambda: cls(ttvs=tv), cls="TTVOrbit",
            given="no size")
    with rec.product("build"):
        cls(period=P, ttvs=tv)
        cls(transit_times=tt)
        cls(transit_times=tt, ttvs=None)
        cls(period=P, ttvs=tv, transit_times=None)
        cls(transit_times=tt, delta_log_period=0.0 * P)
    rec.event("ttv", 4)


def calls(rec, rng):
    """light curves and the transit search"""
    ecc = dict(ecc=0.2, omega=0.3) if rng.random() < 0.5 else {}
    o = KO(period=float(rng.uniform(2, 9)), **ecc)
    star = xo.LimbDarkLightCurve(0.3, 0.2)
    ecl = xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.5)
    t = np.linspace(-0.3, 0.3, 5)
    uit = gen.pick(rng, [None, True, False])
    ok = dict(orbit=o, r=gen.pick(rng, [0.1, 0.0, np.array([0.1])]), t=t)
    if uit is not None:
        ok["use_in_transit"] = uit
    lcs = [star] + ([ecl] if np.ndim(ok["r"]) == 0 and ok["r"] else [])
    for lc in lcs:
        name = type(lc).__name__
        for k in ("orbit", "r", "t"):
            # everything but the search for the orbit's own flip
            kw = dict(ok)
            if rng.random() < 0.5:
                kw[k] = None
            else:
                del kw[k]
            refusal(rec, "refused", lambda: lc.get_light_curve(**kw),
                    cls=name, missing=k)
        bad = gen.pick(rng, [3, 4, -1, 10, "1", 0.5, 1.5])
        te = gen.pick(rng, [0.02, 0.0, np.full(5, 0.02)])
        refusal(rec, "refused", lambda: lc.get_light_curve(
            texp=te, order=bad, **ok), cls=name, order=bad)
        kw = dict(ok, use_in_transit=True, light_delay=True)
        refusal(rec, "refused", lambda: lc.get_light_curve(**kw),
                cls=name, given="delay with the shortcut")
        with rec.product("light-curve"):
            lc.get_light_curve(**ok)
            for order in (0, 1, 2):
                lc.get_light_curve(texp=te, order=order, **ok)
        rec.event("calls", 5)
    refusal(rec, "refused", lambda: o.in_transit(t, light_delay=True),
            cls="KeplerianOrbit", given="in_transit with delay")
    # the deprecated form has to be a pair
    m = int(gen.pick(rng, [1, 3, 4]))
    refusal(rec, "refused", lambda: xo.LimbDarkLightCurve(
        np.full(m, 0.1)).get_light_curve(**ok).eval(mode=PLAIN),
        cls="LimbDarkLightCurve", coefficients=m)
    # an orbit without a flip cannot be eclipsed
    s = xo.orbits.SimpleTransitOrbit(period=3.0, duration=0.1)
    refusal(rec, "refused", lambda: ecl.get_light_curve(orbit=s, r=0.1, t=t),
            cls="SecondaryEclipseLightCurve", orbit="simple")
    for call in (lambda: s.get_planet_velocity(t),
                 lambda: s.get_star_velocity(t),
                 lambda: s.get_radial_velocity(t),
                 lambda: s.get_relative_position(t, light_delay=True),
                 lambda: s.get_planet_position(t, light_delay=True),
                 lambda: s.in_transit(t, r=0.1, light_delay=True)):
        refusal(rec, "refused", call, cls="SimpleTransitOrbit")
    refusal(rec, "refused", lambda: xo.autocorr_function(
        np.zeros((4, 4))), cls="autocorr_function", dims=2)
    rec.event("calls", 10)


WRONG = dict(period=[u.kg, u.km, u.R_sun], a=[u.day, u.kg, u.deg],
             m_planet=[u.day, u.R_sun, u.g / u.cm**3],
             m_star=[u.day, u.R_sun, u.g / u.cm**3],
             r_star=[u.day, u.M_sun], rho_star=[u.M_sun, u.R_sun, u.day],
             duration=[u.km, u.M_sun])
RIGHT = dict(period=u.hour, a=u.au, m_planet=u.M_earth, m_star=u.kg,
             r_star=u.km, rho_star=u.kg / u.m**3, duration=u.hour)


def units(rec, rng):
    S = gen.pick(rng, [
        ["period", "m_planet", "m_star", "r_star"],
        ["a", "m_planet", "r_star", "rho_star"],
        ["period", "a", "r_star", "m_planet"],
        ["period", "b", "duration", "r_star"],
        ["period", "ecc", "omega", "duration", "m_star", "r_star"]])
    v, _ = values(rng, (), False)
    k = gen.pick(rng, [q for q in S if q in WRONG])
    kw = {q: v[q] for q in S}
    kw[k] = with_unit(pt.constant(float(v[k])), gen.pick(rng, WRONG[k]))
    refusal(rec, "refused", lambda: KO(**kw), given=k,
            unit=str(kw[k].__exoplanet_unit__))
    kw[k] = with_unit(pt.constant(float(v[k])), RIGHT[k])
    with rec.product("build"):
        KO(**kw)
    refusal(rec, "refused", lambda: with_unit(kw[k], RIGHT[k]),
            given="two units")
    rec.event("units")


def run_case(rec, rng, i):
    for _ in range(12):
        orbit(rec, rng)
    timing(rec, rng)
    calls(rec, rng)
    units(rec, rng)
