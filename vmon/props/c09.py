"""Skipping the observations out of transit never changes a light curve

RULE: a case is one orbit (Keplerian, with transit timing variations, or
simple), one exposure-time scheme and one set of radii; an execution evaluates
the same light curve with use_in_transit=True, False and by default and compares
every sample; non-trivial when samples in and out of transit take part.
"""

import numpy as np

from vmon import gen, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import KO, System, fn
from vmon.props.c10 import transit_times
from vmon import hooks

CASES = {"quick": 380, "thorough": 9000}
MIN = {"same": 5000, "default": 5000, "kind:kepler": 30, "kind:ttv": 20,
       "kind:simple": 20, "texp:vector": 20, "texp:scalar": 20,
       "dimmed": 1000, "light-delay": 20, "times:0": 5, "times:2": 10,
       "times:3": 4}
ASSUMPTIONS = [
    "exposures are shorter than a fifth of the period and the companion stays "
    "outside of the star",
]


def scheme(rng):
    ek = gen.pick(rng, ["none", "scalar", "vector"], [0.3, 0.35, 0.35])
    order = int(rng.integers(3))
    over = int(rng.integers(1 if order == 0 else 2, 9))
    return ek, order, over


def lcs(star, o, t, r, texp, ek, order, over, **extra):
    kw = dict(orbit=o, r=r, t=t, **extra)
    if ek != "none":
        kw.update(texp=texp, order=order, oversample=over)
    return [
        star.get_light_curve(use_in_transit=True, **kw),
        star.get_light_curve(use_in_transit=False, **kw),
        star.get_light_curve(**kw),
    ]


def time_vars(rec, rng, ek):
    """(t, texp, reshape): usually vectors, sometimes with other shapes"""
    nd = gen.pick(rng, [1, 2, 3, 0], [0.72, 0.14, 0.06, 0.08])
    rec.event("times:%d" % nd)
    kinds = [pt.dscalar, pt.dvector, pt.dmatrix, pt.dtensor3]
    t = kinds[nd]("t")
    texp = kinds[nd if ek == "vector" else 0]("texp")

    def reshape(tv, ev):
        n = len(tv)
        if nd == 1:
            return tv, ev
        if nd == 0:
            # (a single time, for a generator that made at least one)
            shape, n = (), 1
        else:
            d = [q for q in (2, 3, 5, 7, 1) if n % q == 0][0]
            shape = (d, n // d) if nd == 2 else (1, d, n // d)
            if rng.random() < 0.5:
                shape = shape[::-1]
        return (np.reshape(tv[:n], shape),
                np.reshape(ev[:n], shape) if np.ndim(ev) else ev)

    return t, texp, reshape


def compare(rec, got, shape, tol):
    a, b, c = got
    rec.check("shape", b.shape == shape, got=b.shape, want=shape)
    rec.close("same", a, b, tol)
    rec.close("default", c, b, tol)
    rec.event("dimmed", int(np.sum(b < -1e-9)))
    rec.event("undimmed", int(np.sum(b == 0)))


def kepler(rec, rng, i, ttv):
    transiting = rng.random() < 0.8
    force = dict(emax=0.9, min_sep=2.6, pmax=300.0,
                 bmax=0.95 if transiting else 2.0, tbig=(i % 9 == 0),
                 incl_mode="transit" if transiting else None)
    if ttv:
        force.update(n=gen.pick(rng, [1, 2, 3]), tbig=False)
    spec = gen.Spec(rng, **force)
    ek, order, over = scheme(rng)
    rec.event("texp:" + ek)
    rec.event("kind:" + ("ttv" if ttv else "kepler"))
    rec.ctx["scheme"] = dict(texp=ek, order=order, oversample=over, ttv=ttv)
    r = pt.dvector("r")
    t, texp, reshape = time_vars(rec, rng, ek)
    U = ref_lc.kipping(rng)
    star = xo.LimbDarkLightCurve(*U)
    scalar_r = spec.n is None

    def outs(o, t, r, texp):
        return lcs(star, o, t, r[0] if scalar_r else r, texp, ek, order, over)

    fixed = {}
    cls = KO
    first = spec.draw(rng)
    if ttv:
        cls = xo.orbits.TTVOrbit
        ttvs, inds = gen.ttv_lists(rng, first[1])
        fixed = dict(ttvs=ttvs)
        if inds is not None:
            fixed["transit_inds"] = inds
    system = System(rec, rng, spec, outs, [t, r, texp], cls=cls, fixed=fixed)
    nd = 1 if ttv else system.ndraws
    for q in range(nd):
        kw, o = first if q == 0 else spec.draw(rng)
        n = max(1, int(np.prod(o.shape)))
        N = int(rng.integers(1, 60))
        if rng.random() < 0.03 and t.ndim == 1:
            N = 0
        tv, k = transit_times(rng, o, n, N)
        if ttv and N:
            # timestamps around the shifted transits
            for s in range(N):
                j = int(rng.integers(n))
                ii = inds[j] if inds is not None else np.arange(
                    len(ttvs[j]))
                u = int(rng.integers(len(ii)))
                P = np.broadcast_to(ref.f64(o.period), (n,))[j]
                t0 = np.broadcast_to(ref.f64(o.t0), (n,))[j]
                if rng.random() < 0.7:
                    tv[s] = (tv[s] - t0 + P / 2) % P - P / 2 + t0 \
                        + P * ii[u] + ttvs[j][u]
                else:
                    tv[s] += P * rng.integers(0, 12)
        R = float(o.r_star)
        a, P, e, w = (
            np.broadcast_to(ref.f64(x), o.shape).reshape(-1)
            for x in (o.a, o.period, o.e, o.w)
        )
        fac = np.sqrt(1 - e**2) / (1 + e * np.sin(w))
        dur = P / np.pi * R / a * (1.0 if o.circular else fac)
        ev = gen.exposure(rng, dur, P, N, ek)
        rec.ctx["k"] = k
        tv, ev = reshape(tv, ev)
        got = system(kw, tv, k * R, ev)
        slack = 1e-9
        if not o.circular and np.any(np.sin(w) < -0.9):
            # contacts near apastron, where the native solver snaps
            slack = 1e-9 + np.max((1e-4 * a / R) ** 1.5 + 1e-4 * a / R)
        compare(rec, got, tv.shape + (n,), slack)
        rec.seen("kepler", spec.key(), ek, order, over,
                 *[np.asarray(x) for x in kw.values()],
                 nontrivial=bool(np.any(got[1] < 0) and np.any(got[1] == 0)),
                 sample=dict(config=spec.describe(), inputs=kw, k=k))


def simple(rec, rng, i):
    rec.event("kind:simple")
    n = gen.pick(rng, [None, 1, 2, 3])
    ek, order, over = scheme(rng)
    rec.event("texp:" + ek)
    rec.ctx["scheme"] = dict(texp=ek, order=order, oversample=over, n=n)
    mk = pt.dscalar if n is None else pt.dvector
    P, T, t0, b, ror = (mk(q) for q in ("P", "T", "t0", "b", "ror"))
    R = pt.dscalar("R")
    r = pt.dvector("r")
    t, texp, reshape = time_vars(rec, rng, ek)
    star = xo.LimbDarkLightCurve(*ref_lc.kipping(rng))
    with rec.product("build"):
        o = xo.orbits.SimpleTransitOrbit(
            period=P, duration=T, t0=t0, b=b, r_star=R, ror=ror)
        out = lcs(star, o, t, r[0] if n is None else r, texp, ek, order, over)
    with rec.product("compile"):
        f = fn(rng, [P, T, t0, b, ror, R, t, r, texp], out)
    sz = () if n is None else (n,)
    m = n or 1
    for _ in range(5):
        Pv = np.exp(rng.uniform(np.log(0.5), np.log(300), sz))
        Tv = Pv * np.exp(rng.uniform(np.log(1e-3), np.log(0.2), sz))
        tv0 = rng.uniform(-20, 20, sz)
        kv = np.exp(rng.uniform(np.log(3e-3), np.log(0.4), sz))
        given = kv if rng.random() < 0.7 else 0 * kv
        bv = rng.uniform(0, 0.97, sz) * (1 + given)
        Rv = float(np.exp(rng.uniform(-1, 1)))
        N = int(rng.integers(1, 60))
        P1, T1, t1 = (np.atleast_1d(x) for x in (Pv, Tv, tv0))
        j = rng.integers(0, m, N)
        times = t1[j] + rng.integers(-4, 5, N) * P1[j] + np.where(
            rng.random(N) < 0.7, T1[j] * rng.uniform(-1, 1, N),
            P1[j] * rng.uniform(-1, 1, N))
        ev = gen.exposure(rng, T1, P1, N, ek)
        times, ev = reshape(times, ev)
        rec.ctx["inputs"] = dict(P=Pv, T=Tv, t0=tv0, b=bv, k=kv, ror=given)
        with rec.product("evaluate"), hooks.observe(rec):
            got = f(Pv, Tv, tv0, bv, given, Rv, times,
                    np.atleast_1d(kv) * Rv, ev)
        compare(rec, got, times.shape + (m,), 1e-9)
        rec.seen("simple", Pv, Tv, bv, ek, order, over,
                 nontrivial=bool(np.any(got[1] < 0) and np.any(got[1] == 0)))


def delay(rec, rng):
    """with light travel time, the shortcut is off or refused"""
    o = KO(period=float(rng.uniform(1, 20)), b=0.1, m_planet=1e-3)
    star = xo.LimbDarkLightCurve(0.3, 0.2)
    t = np.linspace(-0.2, 0.2, 31)
    with rec.product("light delay"):
        a = star.get_light_curve(orbit=o, r=0.1, t=t, light_delay=True).eval()
        b = star.get_light_curve(orbit=o, r=0.1, t=t, light_delay=True,
                                 use_in_transit=False).eval()
    rec.close("light-delay", a, b, 0)
    rec.expect_raise(
        "light-delay", (NotImplementedError,),
        lambda: star.get_light_curve(orbit=o, r=0.1, t=t, light_delay=True,
                                     use_in_transit=True),
    )


def run_case(rec, rng, i):
    if i % 20 == 7:
        delay(rec, rng)
    k = i % 5
    if k in (0, 1):
        kepler(rec, rng, i, False)
    elif k in (2, 3):
        kepler(rec, rng, i, True)
    else:
        simple(rec, rng, i)
