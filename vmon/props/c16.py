"""The simple transit orbit: the duration, impact parameter and epoch given

RULE: a case is one set of companions given by period, duration, epoch, impact
parameter, stellar radius and radius ratio, each as a scalar or a vector and in
the forms users pass; an execution observes positions, the timestamps in
transit and the light curve at times around contacts, mid transits and far
epochs; non-trivial when the impact parameter is not zero.
"""

import numpy as np

from vmon import gen, hooks, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import fn, same_axes

CASES = {"quick": 900, "thorough": 30000}
MIN = {"path": 20000, "front": 5000, "contacts": 500, "in-transit": 5000,
       "lightcurve": 3000, "star-at-rest": 1000, "refused": 20,
       "texp:vector": 20, "texp:scalar": 20, "inside": 1000}
ASSUMPTIONS = ["0 <= b < 1 + ror and the duration is below half a period"]

EPS = np.finfo(float).eps


def draw(rng, n, vec):
    def sz(k):
        return (n,) if n is not None and vec[k] else ()

    P = np.exp(rng.uniform(np.log(0.5), np.log(500), sz("period")))
    D = np.min(P) * np.exp(rng.uniform(np.log(1e-3), np.log(0.45),
                                       sz("duration")))
    t0 = gen.pick(rng, [0.0, 1.0, 300.0, -50.0, 2.45e6]) + rng.uniform(
        -3, 3, sz("t0"))
    ror = np.exp(rng.uniform(np.log(5e-3), np.log(0.5), sz("ror")))
    if rng.random() < 0.15:
        ror = np.zeros(sz("ror"))
    b = rng.uniform(0, 0.97, sz("b")) * (1 + np.min(ror))
    if rng.random() < 0.15:
        b = np.zeros(sz("b"))
    R = float(np.exp(rng.uniform(np.log(0.2), np.log(5))))
    if rng.random() < 0.2:
        R = 1.0
    return {k: np.asarray(x, dtype=float) for k, x in dict(
        period=P, duration=D, t0=t0, b=b, r_star=R, ror=ror).items()}


def texp_draw(rng, kw, N, ek):
    D, P = np.min(kw["duration"]), np.min(kw["period"])
    hi = min(0.1 * P, (P - np.max(kw["duration"])) * 0.4)
    if ek == "vector":
        return np.minimum(D * np.exp(rng.uniform(-4, 1.5, N)), hi)
    return float(min(D * np.exp(rng.uniform(-4, 1.5)), hi))


def run_case(rec, rng, i):
    if i % 12 == 0:
        refused(rec, rng)
    n = gen.pick(rng, [None, 1, 2, 3], [0.35, 0.15, 0.3, 0.2])
    vec = {k: rng.random() < 0.7 for k in
           ("duration", "t0", "b", "ror")}
    leave = [k for k in ("t0", "b", "r_star", "ror") if rng.random() < 0.12]
    # the period may be shared as long as something tells the bodies apart
    vec["period"] = rng.random() < 0.8 or not any(
        vec[k] for k in ("duration", "t0", "b", "ror") if k not in leave)
    style = gen.pick(rng, ["sym", "const"], [0.55, 0.45])
    ek = gen.pick(rng, ["none", "scalar", "vector"])
    rec.event("texp:" + ek)
    rec.ctx["config"] = dict(n=n, scalars=[k for k in vec if not vec[k]],
                             default=leave, style=style, texp=ek)
    t, r = pt.dvector("t"), (pt.dvector if n else pt.dscalar)("r")
    texp = (pt.dvector if ek == "vector" else pt.dscalar)("texp")
    te = None if ek == "none" else texp
    U = ref_lc.kipping(rng)

    def outs(kw):
        o = xo.orbits.SimpleTransitOrbit(**kw)
        out = list(o.get_relative_position(t))
        out += list(o.get_planet_position(t))
        out += list(o.get_star_position(t))
        out += [o.in_transit(t, texp=te), o.in_transit(t, r=r, texp=te)]
        out += [xo.LimbDarkLightCurve(*U).get_light_curve(
            orbit=o, r=r, t=t)]
        return out

    f = None
    for _ in range(5 if style == "sym" else 2):
        kw = draw(rng, n, vec)
        for k in leave:
            kw[k] = np.asarray(dict(t0=0.0, b=0.0, r_star=1.0, ror=0.0)[k])
        if np.any(kw["b"] >= 0.98 * (1 + kw["ror"])):
            kw["b"] = kw["b"] * 0.4
        given = {k: v for k, v in kw.items() if k not in leave}
        rec.ctx["inputs"] = given
        shape = () if n is None else (n,)
        full = {k: np.broadcast_to(v, shape).reshape(-1).astype(ref.LD)
                for k, v in kw.items()}
        N = 40
        tv = timestamps(rng, full, N)
        rv = full["r_star"].astype(float) * np.maximum(
            full["ror"].astype(float), 1e-3)
        if rng.random() < 0.4:
            # a smaller body than the one the duration is for
            rv = rv * rng.uniform(0.2, 1.0)
            rv = np.where(
                full["b"] * full["r_star"] > 0.98 * (full["r_star"] + rv),
                full["r_star"] * np.maximum(full["ror"], 1e-3), rv
            ).astype(float)
        rarg = rv if n is not None else float(rv[0])
        tx = None if ek == "none" else texp_draw(rng, kw, N, ek)
        if style == "sym":
            if f is None:
                syms = {k: (pt.dvector if v.ndim else pt.dscalar)(k)
                        for k, v in given.items()}
                with rec.product("build"):
                    out = outs(syms)
                with rec.product("compile"):
                    f = fn(rng, list(syms.values()) + [t, r, texp], out)
            with rec.product("evaluate"), hooks.observe(rec):
                got = f(*given.values(), tv, rarg,
                        0.0 * tv if ek == "none" and texp.ndim else
                        (0.0 if tx is None else tx))
        else:
            with rec.product("build"):
                out = outs({k: gen.as_user_input(rng, v)
                            for k, v in given.items()})
            with rec.product("compile"):
                g = fn(rng, [t, r, texp], out, mode="plain")
            with rec.product("evaluate"), hooks.observe(rec):
                got = g(tv, rarg, 0.0 if tx is None else tx)
        same_axes(rec, got[:6], tv, shape)
        judge(rec, got, full, shape, tv, rv, tx, U)
        rec.seen(repr(rec.ctx["config"]), tv, *kw.values(),
                 nontrivial=bool(np.any(kw["b"] > 0)),
                 sample=dict(config=rec.ctx["config"], inputs=given))


def timestamps(rng, full, N):
    n = len(full["period"])
    tv = np.empty(N)
    for s in range(N):
        j = int(rng.integers(n))
        P, D, t0 = (float(full[k][j]) for k in ("period", "duration", "t0"))
        c = t0 + int(rng.integers(-40, 41)) * P
        u = rng.random()
        if u < 0.4:
            tv[s] = c + rng.uniform(-0.75, 0.75) * D
        elif u < 0.5:
            tv[s] = c
        elif u < 0.75:
            tv[s] = c + gen.pick(rng, [-0.5, 0.5]) * D * (
                1 + gen.pick(rng, [-1, 1]) * 10 ** rng.uniform(-5, -1))
        elif u < 0.8:
            tv[s] = c + gen.pick(rng, [-0.5, 0.5]) * D
        else:
            tv[s] = c + rng.uniform(-0.5, 0.5) * P
    return tv


def judge(rec, got, full, shape, tv, rv, tx, U):
    n = len(full["period"])
    N = len(tv)
    P, D, t0, b, R, ror = (full[k] for k in (
        "period", "duration", "t0", "b", "r_star", "ror"))
    d = tv.astype(ref.LD)[:, None] - t0
    d = d - P * np.round(d / P)
    err = 16 * EPS * ref.f64(np.abs(tv)[:, None] + np.abs(t0) + P)
    amb = ref.f64(P / 2 - np.abs(d)) < err
    speed = 2 * R * np.sqrt((1 + ror) ** 2 - b**2) / D
    X, Y = ref.f64(speed * d), ref.f64(b * R + 0 * d)
    want = (N, n) if shape else (N,)
    loss = ref.f64(1 + b**2 / ((1 + ror) ** 2 - b**2))
    tol = ref.f64(speed) * err + 1e-14 * loss * np.abs(X) + 1e-300

    def cols(x):
        x = np.asarray(x, dtype=float)
        if x.shape == want or (n == 1 and x.shape in ((N,), (N, 1))):
            return x.reshape(N, n)
        rec.violate("shape", got=x.shape, want=want)
        return np.full((N, n), np.nan)

    inside = ref.f64(np.abs(d)) < ref.f64(D / 2) - err
    outside = ref.f64(np.abs(d)) > ref.f64(D / 2) + err
    for k in (0, 3):
        x, y, z = (cols(c) for c in got[k: k + 3])
        rec.close("path", x, X, tol, mask=~amb, t=tv)
        rec.close("path", y, Y, 4 * EPS * np.abs(Y) + 1e-300)
        rec.check("front", np.all(z[inside] > 0) and np.all(z[outside] < 0),
                  n=N * n, t=tv)
    for s in got[6:9]:
        rec.close("star-at-rest", s, np.zeros(N), 0)
    # the duration runs from first to last contact
    x, y, z = (cols(c) for c in got[:3])
    edge = np.abs(np.abs(ref.f64(d)) - ref.f64(D / 2)) < err
    rec.close("contacts", np.hypot(x, y) + 0.0 * X,
              np.broadcast_to(ref.f64(R * (1 + ror)), (N, n)),
              2 * tol + 1e-14 * ref.f64(R), mask=edge)
    # timestamps in transit
    half = 0.0 if tx is None else 0.5 * (
        np.asarray(tx)[:, None] if np.ndim(tx) else tx)
    ad = ref.f64(np.abs(d))
    for idx, L in ((got[9], ref.f64(D / 2)),
                   (got[10], ref.f64(np.sqrt((rv + R) ** 2 - (b * R) ** 2)
                                     / speed))):
        lossr = ref.f64(((rv + R) ** 2 / ((rv + R) ** 2 - (b * R) ** 2)))
        e = err + 1e-14 * (L + half) * (loss + lossr)
        sure = np.any(ad < L + half - e, axis=1)
        never = np.all(ad > L + half + e, axis=1)
        idx = np.asarray(idx)
        ok = idx.ndim == 1 and np.all(np.diff(idx) > 0)
        rec.check("in-transit", ok, n=0, what="order", got=idx)
        m = np.zeros(N, bool)
        m[idx] = True
        rec.check("in-transit", np.all(m[sure]), n=int(sure.sum()),
                  what="missed", t=tv[sure & ~m], texp=tx)
        rec.check("in-transit", not np.any(m[never]), n=int(never.sum()),
                  what="spurious", t=tv[never & m], texp=tx)
        rec.event("inside", sure.sum())
    # light curve
    k = rv / ref.f64(R)
    bb = np.hypot(X, Y) / ref.f64(R)
    F = ref_lc.occultation(bb, k, *U)
    ft = 1e-10 + 0 * F
    db = 2 * tol / ref.f64(R) + 1e-13
    for s in (-1, 1):
        ft = np.maximum(ft, 1e-10 + 2 * np.abs(
            ref_lc.occultation(np.abs(bb + s * db), k, *U) - F))
    rec.close("lightcurve", cols(got[11]), np.where(inside, F, 0.0), ft,
              mask=inside | outside)


def refused(rec, rng):
    o = xo.orbits.SimpleTransitOrbit(period=3.0, duration=0.1)
    t = np.linspace(0, 1, 3)
    for call in (
        lambda: o.get_planet_velocity(t), lambda: o.get_star_velocity(t),
        lambda: o.get_radial_velocity(t),
        lambda: o.get_relative_position(t, light_delay=True),
        lambda: o.get_planet_position(t, light_delay=True),
        lambda: o.in_transit(t, light_delay=True),
    ):
        rec.expect_raise("refused", (NotImplementedError,), call)
