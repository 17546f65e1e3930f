"""Exposure-time integration averages the light curve with the stated rule

RULE: a case is one orbit (Keplerian, TTV or simple), one integration order and
oversampling, and a scalar or per-observation exposure time; an execution
compares every integrated sample with the weighted mean of instantaneous
samples (evaluated by the same code and by the independent reference) and with
the true average; non-trivial when the flux varies within some exposure.
"""

import numpy as np

from vmon import gen, hooks, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import KO, System, fn
from vmon.props.c10 import transit_times

CASES = {"quick": 350, "thorough": 8000}
MIN = {"rule": 3000, "reference": 2000, "average": 1000, "zero-length": 200,
       "texp:vector": 30, "texp:scalar": 30, "order:0": 20, "order:1": 20,
       "order:2": 20, "rejected": 5, "matrix": 10, "even": 20}
ASSUMPTIONS = [
    "an even number of evaluations is rounded up to the next odd number, and "
    "the trapezoid and Simpson rules get at least two",
]


def nodes(order, over):
    """offsets in units of the exposure time, and weights that sum to one"""
    m = over + 1 - over % 2
    if order == 0:
        x = (np.arange(m) + 0.5) / m - 0.5
        w = np.ones(m)
    else:
        x = np.arange(m) / (m - 1.0) - 0.5
        if order == 1:
            w = np.ones(m)
            w[0] = w[-1] = 0.5
        else:
            w = np.where(np.arange(m) % 2, 4.0, 2.0)
            w[0] = w[-1] = 1.0
    return x, w / w.sum()


def run_case(rec, rng, i):
    if i % 25 == 1:
        rejected(rec, rng)
    kind = ["kepler", "kepler", "kepler", "simple", "ttv"][i % 5]
    ek = gen.pick(rng, ["scalar", "vector"])
    order = int(rng.integers(3))
    over = int(rng.integers(1 if order == 0 else 2, 14))
    if rng.random() < 0.15:
        over = 51
    shortcut = bool(rng.random() < 0.5)
    matrix = bool(not shortcut and rng.random() < 0.3)
    rec.event("texp:" + ek)
    rec.event("order:%d" % order)
    rec.event("even", over % 2 == 0)
    rec.event("matrix", matrix)
    rec.ctx["scheme"] = dict(kind=kind, texp=ek, order=order, oversample=over,
                             shortcut=shortcut, matrix=matrix)
    t = (pt.dmatrix if matrix else pt.dvector)("t")
    tn = pt.dvector("tn")
    texp = (pt.dscalar if ek == "scalar"
            else (pt.dmatrix if matrix else pt.dvector))("texp")
    r = pt.dvector("r")
    U = ref_lc.kipping(rng)
    star = xo.LimbDarkLightCurve(*U)
    x, w = nodes(order, over)

    if kind == "simple":
        n = gen.pick(rng, [1, 2, 3])
        scalar_r = False
    else:
        force = dict(emax=0.85, min_sep=2.6, pmax=200.0, bmax=0.95,
                     incl_mode="transit", tbig=False)
        if kind == "ttv":
            force.update(n=gen.pick(rng, [1, 2, 3]))
        spec = gen.Spec(rng, **force)
        scalar_r = spec.n is None

    def outs(o, t, tn, texp, r):
        rr = r[0] if scalar_r else r
        return [
            star.get_light_curve(orbit=o, r=rr, t=t, texp=texp, order=order,
                                 oversample=over, use_in_transit=shortcut),
            star.get_light_curve(orbit=o, r=rr, t=tn, use_in_transit=False),
        ]

    if kind == "simple":
        vs = [pt.dvector(q) for q in ("P", "T", "t0", "b", "k")]
        R = pt.dscalar("R")
        with rec.product("build"):
            o_ = xo.orbits.SimpleTransitOrbit(
                period=vs[0], duration=vs[1], t0=vs[2], b=vs[3], ror=vs[4],
                r_star=R)
            out = outs(o_, t, tn, texp, r)
        with rec.product("compile"):
            f = fn(rng, vs + [R, t, tn, texp, r], out)
        system = None
    else:
        first = spec.draw(rng)
        cls, fixed = KO, {}
        if kind == "ttv":
            cls = xo.orbits.TTVOrbit
            ttvs, inds = gen.ttv_lists(rng, first[1])
            fixed = dict(ttvs=ttvs)
            if inds is not None:
                fixed["transit_inds"] = inds
        system = System(rec, rng, spec, outs, [t, tn, texp, r], cls=cls,
                        fixed=fixed)

    ndraw = 4 if system is None or system.spec.style == "sym" else 1
    if kind == "ttv":
        ndraw = 1
    for q in range(ndraw):
        N = int(rng.integers(2, 24))
        N -= N % 2
        if kind == "simple":
            m = n
            P = np.exp(rng.uniform(np.log(0.5), np.log(300), n))
            dur = P * np.exp(rng.uniform(np.log(1e-3), np.log(0.2), n))
            t0 = rng.uniform(-20, 20, n)
            k = np.exp(rng.uniform(np.log(1e-2), np.log(0.3), n))
            b = rng.uniform(0, 0.95, n) * (1 + k)
            Rv = float(np.exp(rng.uniform(-1, 1)))
            j = rng.integers(0, n, N)
            tv = t0[j] + rng.integers(-3, 4, N) * P[j] + dur[j] * rng.uniform(
                -0.8, 0.8, N)
            vals = [P, dur, t0, b, k, Rv]
        else:
            kw, o = first if q == 0 else spec.draw(rng)
            m = max(1, int(np.prod(o.shape)))
            tv, k = transit_times(rng, o, m, N)
            Rv = float(o.r_star)
            a, P, e, ww = (
                np.broadcast_to(ref.f64(z), o.shape).reshape(-1)
                for z in (o.a, o.period, o.e, o.w)
            )
            fac = 1.0 if o.circular else np.sqrt(1 - e**2) / (
                1 + e * np.sin(ww))
            dur = P / np.pi * Rv / a * fac
        ev = gen.exposure(rng, dur, P, N, ek)
        if rng.random() < 0.1:
            ev = 0.0 * ev
        tg = tv[:, None] + np.broadcast_to(ev, (N,))[:, None] * x
        tin, ein = tv, ev
        if matrix:
            tin = tv.reshape(2, -1)
            ein = ev if ek == "scalar" else np.reshape(ev, tin.shape)
        rec.ctx["k"] = k
        if system is None:
            rec.ctx["inputs"] = vals
            with rec.product("evaluate"), hooks.observe(rec):
                got, inst = f(*vals, tin, tg.ravel(), ein, k * Rv)
        else:
            got, inst = system(kw, tin, tg.ravel(), ein, k * Rv)
        rec.check("shape", got.shape == np.shape(tin) + (m,), got=got.shape)
        if got.size != N * m:
            return
        got = got.reshape(N, m)
        inst = inst.reshape(N, len(x), m)
        want = np.einsum("k,nkm->nm", w, inst)
        # a node on the edge of something may round to its other side
        jit = 0.0
        if kind == "simple":
            # the simple orbit switches off at the contacts, where the flux
            # of a grazing body is continuous
            jit = 1e-9
        else:
            rounding = np.max(ref.f64(o.dt_rounding(tv))) * 2 * np.pi \
                * np.max(a / P * (1 + e) / np.sqrt(1 - e**2)) / Rv
            jit = jit + 50 * np.sqrt(rounding + 1e-15) * np.max(k) * (
                np.max(k) + np.sqrt(rounding)) * 1e-3 + 20 * rounding
            if not o.circular and np.any(np.sin(ww) < -0.9):
                jit = jit + np.max(1e-4 * a / Rv)
        rec.close("rule", got, want, 1e-11 + jit, t=tv[:5],
                  texp=np.broadcast_to(ev, (N,))[:5])
        zero = np.broadcast_to(ev, (N,)) == 0
        if zero.any():
            rec.close("zero-length", got[zero], inst[zero][:, 0], 1e-12 + jit)
        if kind == "kepler":
            X, Y, Z = (np.reshape(ref.f64(c), tg.shape + (m,))
                       for c in o.rel(tg))
            F = np.where(Z > 0, ref_lc.occultation(
                np.hypot(X, Y) / Rv, k, *U), 0.0)
            want = np.einsum("k,nkm->nm", w, F)
            db = 1e-9 * np.max(a) / Rv
            rec.close("reference", got, want, 1e-9 + db + jit)
            # the true average of the flux
            fine, fw = nodes(0, 401)
            tf = tv[:, None] + np.broadcast_to(ev, (N,))[:, None] * fine
            X, Y, Z = (np.reshape(ref.f64(c), tf.shape + (m,))
                       for c in o.rel(tf))
            F = np.where(Z > 0, ref_lc.occultation(
                np.hypot(X, Y) / Rv, k, *U), 0.0)
            tv_ = np.sum(np.abs(np.diff(F, axis=1)), axis=1)
            # the nodes of the rule can see a variation that the grid misses
            tv_ = np.maximum(tv_, 2 * np.max(np.abs(inst), axis=1))
            mm = len(x) if order == 0 else len(x) - 1
            rec.close("average", got, F.mean(axis=1),
                      2.0 * tv_ / mm + tv_ / 100 + 1e-9 + db + jit)
        rec.seen(kind, order, over, ek, tv, ev,
                 nontrivial=bool(np.any(np.ptp(inst, axis=1) > 0)),
                 sample=dict(scheme=rec.ctx["scheme"], k=k, texp=ev))


def rejected(rec, rng):
    o = KO(period=3.0)
    star = xo.LimbDarkLightCurve(0.3, 0.2)
    for bad in (3, 4, -1):
        rec.expect_raise(
            "rejected", (ValueError,),
            lambda: star.get_light_curve(orbit=o, r=0.1, t=np.zeros(2),
                                         texp=0.1, order=bad),
            order=bad,
        )
