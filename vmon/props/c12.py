"""Secondary eclipses combine both discs with the right geometry and weights

RULE: a case is one SecondaryEclipseLightCurve over a KeplerianOrbit (one or
several companions, any orientation, with or without exposure times, shortcut
and light travel time); an execution compares the flux with an independent
occultation photometry of both bodies; non-trivial when a transit or an
occultation is sampled.
"""

import numpy as np

from vmon import gen, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import System
from vmon.props.c10 import transit_times
from vmon.props.c11 import nodes

CASES = {"quick": 400, "thorough": 7000}
MIN = {"flux": 3000, "in-transit": 300, "in-eclipse": 300, "several": 20,
       "integrated": 300, "delayed": 100, "shortcut": 300, "baseline": 500,
       "total-eclipse": 30}
ASSUMPTIONS = [
    "the companion stays outside of the star",
]


def secondary_flux(sep, Z, R, rp, U1, U2, s):
    """(flux, companions in transit, companions in eclipse)"""
    k = rp / R
    lc1 = np.where(Z > 0, ref_lc.occultation(sep / R, k, *U1), 0.0)
    lc2 = np.where(Z < 0, ref_lc.occultation(sep / rp, 1 / k, *U2), 0.0)
    fr = s * k**2
    return (lc1 + fr * lc2) / (1 + fr), lc1, lc2


def run_case(rec, rng, i):
    n = gen.pick(rng, [None, 1, 2, 3], [0.3, 0.15, 0.35, 0.2])
    mode = gen.pick(rng, ["plain", "texp", "delay", "delay"],
                    [0.5, 0.3, 0.1, 0.1])
    ek = "none"
    if mode == "texp":
        ek = gen.pick(rng, ["scalar", "vector"])
    shortcut = gen.pick(rng, [None, True, False])
    if mode == "delay":
        shortcut = gen.pick(rng, [None, False])
    spec = gen.Spec(
        rng, n=n, emax=0.8, min_sep=2.8, pmax=200.0 if mode == "delay"
        else 100.0, bmax=1.2, retro=True,
        mass="zero" if mode == "delay" and rng.random() < 0.5 else gen.pick(
            rng, ["none", "zero", "small", "binary"]),
        incl_mode="transit" if rng.random() < 0.85 else None, tbig=False,
    )
    order = int(rng.integers(3))
    over = int(rng.integers(2, 6))
    rec.ctx["scheme"] = dict(mode=mode, texp=ek, shortcut=shortcut,
                             order=order, oversample=over)
    t, r = pt.dvector("t"), pt.dvector("r")
    texp = (pt.dvector if ek == "vector" else pt.dscalar)("texp")
    u1, u2 = pt.dvector("u1"), pt.dvector("u2")
    s = pt.dscalar("s")
    scalar_r = spec.n is None
    literal_u = rng.random() < 0.3
    L1, L2 = ref_lc.kipping(rng), ref_lc.kipping(rng)

    def outs(o, t, r, texp, u1, u2, s):
        lc = xo.SecondaryEclipseLightCurve(
            L1 if literal_u else u1, list(L2) if literal_u else u2, s)
        kw = dict(orbit=o, r=r[0] if scalar_r else r, t=t)
        if shortcut is not None:
            kw["use_in_transit"] = shortcut
        if ek != "none":
            kw.update(texp=texp, order=order, oversample=over)
        if mode == "delay":
            kw["light_delay"] = True
        return [lc.get_light_curve(**kw)]

    system = System(rec, rng, spec, outs, [t, r, texp, u1, u2, s])
    for _ in range(system.ndraws):
        kw, o = spec.draw(rng)
        m = max(1, int(np.prod(o.shape)))
        N = int(rng.integers(4, 50))
        tv, k = transit_times(rng, o, m, N)
        R = float(o.r_star)
        a, P, e, w, t0 = (
            np.broadcast_to(ref.f64(q), o.shape).reshape(-1)
            for q in (o.a, o.period, o.e, o.w, o.t0)
        )
        fac = 1.0 if o.circular else np.sqrt(1 - e**2) / (1 + e * np.sin(w))
        dur = P / np.pi * R / a * fac
        # the occultation happens half a revolution after the transit
        if o.circular:
            tocc = t0 + P / 2
        else:
            Mo = ref.f64(o.mean_anomaly_at(-np.pi / 2 - o.w))
            Mo = np.broadcast_to(Mo, o.shape).reshape(-1)
            Mt = np.broadcast_to(ref.f64(o.M_tr), o.shape).reshape(-1)
            tocc = t0 + np.mod(Mo - Mt, 2 * np.pi) / (2 * np.pi) * P
        facs = 1.0 if o.circular else np.sqrt(1 - e**2) / (
            1 - e * np.sin(w))
        duro = P / np.pi * R / a * facs
        q = rng.random(N) < 0.5
        j = rng.integers(0, m, N)
        shift = a / ref.C if mode == "delay" else 0 * a
        tv = np.where(q, tocc[j] + shift[j] + rng.integers(-3, 4, N) * P[j]
                      + duro[j] * rng.uniform(-0.6, 0.6, N), tv)
        ev = gen.exposure(rng, np.minimum(dur, duro), P, N, ek)
        U1, U2 = (L1, L2) if literal_u else (
            ref_lc.kipping(rng), ref_lc.kipping(rng))
        sv = float(np.exp(rng.uniform(np.log(1e-4), np.log(2.0))))
        if rng.random() < 0.05:
            sv = 0.0
        rec.ctx.update(k=k, u=(U1, U2), s=sv)
        got = system(kw, tv, k * R, ev, np.array(U1), np.array(U2), sv)[0]
        if not rec.check("shape", got.shape == (N, m), got=got.shape,
                         want=(N, m)):
            return
        x, wt = (np.zeros(1), np.ones(1)) if ek == "none" else nodes(
            order, over)
        tg = tv[:, None] + np.broadcast_to(ev, (N,))[:, None] * x

        def sky(tt):
            if mode == "delay":
                te = o.emission_time("rel", tt)
                return o.rel(te, planet_times=True)
            return o.rel(tt)

        X, Y, Z = (np.reshape(ref.f64(c), tg.shape + (m,)) for c in sky(tg))
        sep = np.hypot(X, Y)
        F, lc1, lc2 = secondary_flux(sep, Z, R, k * R, U1, U2, sv)
        v = 2 * np.pi * a / P * np.sqrt((1 + e) / (1 - e))
        d = np.broadcast_to(ref.f64(o.dt_rounding(
            tg, delay=mode == "delay")),
                            tg.shape + o.shape).reshape(tg.shape + (m,))
        ds = v * d + 2e-9 * a
        if mode == "delay":
            # the documented second-order expansion of the delay
            ds = ds + v * 20 * (v / ref.C) ** 2 * a / ref.C
        tol = 1e-11 + 0 * F
        for sgn in (-1, 1, 0.3):
            tol = np.maximum(tol, 1e-11 + 2 * np.abs(secondary_flux(
                np.abs(sep + sgn * ds), Z, R, k * R, U1, U2, sv)[0] - F))
        if not o.circular and np.any(np.abs(np.sin(w)) > 0.9):
            # the shortcut uses contacts that the native solver may snap
            tol = tol + 1e-6 if shortcut is False else tol + np.max(
                1e-4 * a / R)
        want = np.einsum("q,nqm->nm", wt, F)
        tol = np.einsum("q,nqm->nm", wt, tol) + 1e-12
        if ek != "none":
            tol = tol + 1e-9
        rec.close("flux", got, want, tol, t=tv[:6])
        rec.counts["in-transit"] += int(np.sum(np.any(lc1 < 0, axis=1)))
        rec.counts["in-eclipse"] += int(np.sum(np.any(lc2 < 0, axis=1)))
        if m > 1:
            rec.event("several")
        for name, on in (("integrated", ek != "none"),
                         ("delayed", mode == "delay"),
                         ("shortcut", shortcut is not False)):
            rec.counts[name] += int(on) * got.size
        flat = np.all((lc1 == 0) & (lc2 == 0)
                      & (np.abs(Z) > 2 * ds[..., :]), axis=1)
        flat &= np.all((sep > (R + k * R) + 2 * ds) | (np.abs(Z) > R),
                       axis=1)
        rec.check("baseline", np.all(np.abs(got[flat]) < 1e-11),
                  n=int(flat.sum()))
        total = np.all((lc2 < -1 + 1e-12) & (lc1 == 0), axis=1)
        fr = np.broadcast_to(sv * k**2, got.shape)
        if total.any():
            rec.close("total-eclipse", got[total], (-fr / (1 + fr))[total],
                      1e-11 + tol[total])
        rec.seen(mode, spec.key(), ek, *[np.asarray(z) for z in kw.values()],
                 nontrivial=bool(np.any(lc1 < 0) or np.any(lc2 < 0)),
                 sample=dict(config=spec.describe(), inputs=kw, k=k, s=sv))
