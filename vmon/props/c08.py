"""in_transit finds exactly the exposures that a transit touches

RULE: a case is one system (circular or eccentric, scalar/vector, with or
without radii and exposure times); an execution hands it clustered times and
judges each returned or omitted index against the projected geometry; an
execution is non-trivial when it contains exposures in and out of transit.
"""

import numpy as np

from vmon import gen, hooks, ref
from vmon.env import pt
from vmon.lib import System

CASES = {"quick": 400, "thorough": 9000}
MIN = {"complete": 3000, "exact": 3000, "indices": 500,
       "kernel:contact_points": 100, "texp-vector": 50, "texp-scalar": 50}
ASSUMPTIONS = [
    "exposures are shorter than a fifth of the period and the companion stays "
    "outside of the star",
    "for an eccentric system in which some companion never transits the "
    "method may return every index; completeness is still judged",
]


def run_case(rec, rng, i):
    ecc = gen.pick(rng, ["none", "omega", "sincos"], [0.35, 0.4, 0.25])
    transiting = rng.random() < 0.75
    spec = gen.Spec(
        rng, ecc=ecc, emax=0.9, min_sep=2.6, bmax=0.95 if transiting else 2.5,
        tbig=(i % 9 == 0), pmax=400.0, incl_mode="transit" if transiting
        else None,
    )
    rk = gen.pick(rng, ["default", "scalar", "vector"], [0.2, 0.4, 0.4])
    if spec.n is None and rk == "vector":
        rk = "scalar"
    ek = gen.pick(rng, ["none", "scalar", "vector"], [0.4, 0.3, 0.3])
    t = pt.dvector("t")
    r = {"default": pt.dscalar, "scalar": pt.dscalar,
         "vector": pt.dvector}[rk]("r")
    texp = {"none": pt.dscalar, "scalar": pt.dscalar,
            "vector": pt.dvector}[ek]("texp")
    rec.ctx["r"] = rk
    rec.ctx["texp"] = ek
    literal_r = rng.random() < 0.3 and rk == "scalar"
    rlit = float(rng.uniform(0.01, 0.3))

    def outs(orbit, t, r, texp):
        kw = {}
        if rk != "default":
            kw["r"] = rlit if literal_r else r
        if ek != "none":
            kw["texp"] = texp
        return [orbit.in_transit(t, **kw)]

    system = System(rec, rng, spec, outs, [t, r, texp])
    for _ in range(system.ndraws + 2):
        kw, o = spec.draw(rng)
        n = max(1, int(np.prod(o.shape)))

        def full(x):
            return np.broadcast_to(ref.f64(x), o.shape).reshape(-1)

        P, t0, a, e, w, inc = (
            full(x) for x in (o.period, o.t0, o.a, o.e, o.w, o.incl)
        )
        R = float(o.r_star)
        if rk == "default":
            rv = 0.0
        elif literal_r:
            rv = rlit
        elif rk == "scalar":
            rv = R * float(np.exp(rng.uniform(np.log(1e-3), np.log(0.5))))
        else:
            rv = R * np.exp(rng.uniform(np.log(1e-3), np.log(0.5), n))
        rfull = np.broadcast_to(rv, (n,))
        # rough duration
        fac = np.sqrt(1 - e**2) / (1 + e * np.sin(w))
        if o.circular:
            fac = np.ones(n)
        dur = P / np.pi * (R + rfull) / a * fac
        tv = []
        for _k in range(int(rng.integers(20, 70))):
            j = int(rng.integers(n))
            m = int(rng.integers(-5, 6))
            q = rng.random()
            if q < 0.35:
                tv.append(t0[j] + m * P[j] + dur[j] * rng.uniform(-0.8, 0.8))
            elif q < 0.6:
                tv.append(t0[j] + m * P[j]
                          + rng.choice([-1, 1]) * dur[j] * 0.5
                          * rng.uniform(0.7, 1.3))
            elif q < 0.75:
                tv.append(t0[j] + (m + 0.5) * P[j]
                          + dur[j] * rng.uniform(-1, 1))
            elif q < 0.8:
                tv.append(t0[j] + m * P[j])
            else:
                tv.append(t0[j] + P[j] * rng.uniform(-2, 2))
        tv = np.array(tv)
        if rng.random() < 0.2:
            tv = np.sort(tv)
        if ek == "none":
            ev = 0.0
        elif ek == "scalar":
            ev = float(min(np.min(dur) * np.exp(rng.uniform(-3, 1.5)),
                           0.2 * np.min(P)))
        else:
            ev = np.minimum(np.min(dur) * np.exp(rng.uniform(-4, 1.5,
                                                             len(tv))),
                            0.2 * np.min(P))
        rec.ctx["r_value"] = rv
        got = system(
            kw, tv, np.atleast_1d(rv) if rk == "vector" else float(
                np.atleast_1d(rv)[0]), ev,
        )[0]
        N = len(tv)
        ok = rec.check(
            "indices",
            got.ndim == 1 and np.all((got >= 0) & (got < N))
            and np.all(np.diff(got) > 0), got=got,
        )
        if not ok:
            return
        mask = np.zeros(N, bool)
        mask[got] = True

        # the geometry during the exposure of every datum
        half = 0.5 * np.broadcast_to(ev, (N,))
        S = 1 if ek == "none" else 81
        sgrid = np.array([0.0]) if S == 1 else np.linspace(-1, 1, S)
        tt = tv[:, None] + half[:, None] * sgrid
        X, Y, Z = o.rel(tt)
        X, Y, Z = (ref.f64(q).reshape(N, S, n) for q in (X, Y, Z))
        sep = np.hypot(X, Y)
        L = R + rfull
        d = ref.f64(o.dt_rounding(tv))
        d = d.reshape(N, -1)[:, None, :]
        v = 2 * np.pi * a / P * np.sqrt((1 + e) / (1 - e))
        slack = 1e-6 * L + 4 * v * d + 1e-7 * a
        if not o.circular:
            # contacts computed by the native solver near apastron
            slack = slack + np.where(np.sin(w) < -0.9, 1e-4 * a, 0.0)
        near = Z > -0.0
        inside = np.any((sep < L - slack) & near, axis=(1, 2))
        step = half[:, None, None] * (2.0 / max(S - 1, 1)) * v / 2
        outside = np.all((sep > L + slack + step) | (Z < -slack - step),
                         axis=(1, 2))
        rec.check(
            "complete", np.all(mask[inside]), n=int(inside.sum()),
            missed=np.nonzero(inside & ~mask)[0],
            t=tv[inside & ~mask][:5], texp=np.broadcast_to(ev, (N,))[
                inside & ~mask][:5],
        )
        b = a * np.cos(inc) * (1 - e**2) / (1 + e * np.sin(w))
        if o.circular:
            well_defined = True
        else:
            # not grazing, and the bodies never touch
            well_defined = bool(np.all((np.abs(b) < 0.9 * L)
                                       & (a * (1 - e) > 1.1 * L)))
            rec.event("eccentric-all-transit", well_defined)
        if well_defined:
            rec.check(
                "exact", not np.any(mask[outside]), n=int(outside.sum()),
                spurious=np.nonzero(outside & mask)[0],
                t=tv[outside & mask][:5], texp=np.broadcast_to(ev, (N,))[
                    outside & mask][:5],
            )
        rec.seen(
            spec.key(), rk, ek, *[np.asarray(x) for x in kw.values()],
            nontrivial=bool(inside.any() and outside.any()),
            sample=dict(config=spec.describe(), inputs=kw, r=rv, texp=ek,
                        found=int(mask.sum()), of=N),
        )
        if ek != "none":
            rec.event("texp-" + ek)
