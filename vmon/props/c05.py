"""A transit duration given instead of a size is the duration one observes

RULE: a case is one KeplerianOrbit built from a duration (circular: with b;
eccentric: replacing b), scalar or vector, with or without ror; an execution
reads the implied geometry and observes the projected separation at the
contacts; non-trivial always.
"""

import numpy as np

from vmon import gen, hooks, ref
from vmon.env import pt, xo
from vmon.lib import KO, fn

CASES = {"quick": 1000, "thorough": 6000}
MIN = {"circular-contact": 300, "circular-a": 150, "winn": 150,
       "helper": 100, "eccentric-approx": 50}


def params(rng, n, names, style):
    out = {}
    for k in names:
        vec = n is not None
        out[k] = (pt.dvector if vec else pt.dscalar)(k)
    return out


def circular(rec, rng, i):
    n = gen.pick(rng, [None, 1, 2, 3])
    sz = () if n is None else (n,)
    with_ror = rng.random() < 0.7
    with_r = rng.random() < 0.7
    with_m = rng.random() < 0.4
    bvec = rng.random() < 0.8
    style = gen.pick(rng, ["sym", "const"], [0.7, 0.3])
    rec.ctx["config"] = dict(n=n, ror=with_ror, r_star=with_r, m=with_m,
                             style=style)

    def draw():
        P = np.exp(rng.uniform(np.log(0.5), np.log(800), sz))
        k = rng.uniform(0.001, 0.3, sz) if rng.random() < 0.85 else (
            rng.uniform(0.3, 1.3, sz))
        if not with_ror:
            k = np.zeros(sz)
        b = rng.uniform(0, 0.98, sz if bvec else ()) * (1 + np.min(k))
        if rng.random() < 0.1:
            b = np.zeros(sz if bvec else ())
        # durations from grazing-short to a sizeable part of the orbit
        dur = P * np.exp(rng.uniform(np.log(1e-3), np.log(0.2), sz))
        kw = dict(period=P, duration=dur, b=b)
        if with_ror:
            kw["ror"] = k
        if with_r:
            kw["r_star"] = np.asarray(rng.uniform(0.1, 5.0))
        if with_m:
            kw["m_planet"] = np.asarray(10 ** rng.uniform(-7, -4, sz))
        kw["t0"] = np.asarray(rng.uniform(-10, 10, sz))
        return kw, k

    t = pt.dvector("t")

    def outs(o):
        return list(o.get_relative_position(t)) + [
            o.a, o.period, o.r_star, o.b, o.incl, o.cos_incl, o.m_star,
            o.rho_star,
        ]

    f = None
    for _ in range(5 if style == "sym" else 1):
        kw, k = draw()
        rec.ctx["inputs"] = {q: np.asarray(v).tolist() for q, v in kw.items()}
        t0 = np.atleast_1d(kw["t0"])
        d = np.atleast_1d(kw["duration"])
        tv = np.concatenate([t0 - d / 2, t0 + d / 2, t0,
                             t0 + 7 * np.atleast_1d(kw["period"]) - d / 2])
        if style == "sym":
            if f is None:
                syms = {
                    q: (pt.dvector if np.ndim(v) else pt.dscalar)(q)
                    for q, v in kw.items()
                }
                with rec.product("build"):
                    oo = outs(KO(**syms))
                with rec.product("compile"):
                    f = fn(rng, list(syms.values()) + [t], oo)
            with rec.product("evaluate"), hooks.observe(rec):
                got = f(*[kw[q] for q in syms], tv)
        else:
            with rec.product("build"):
                oo = outs(KO(**{
                    q: gen.as_user_input(rng, v) for q, v in kw.items()
                }))
                g = fn(rng, [t], oo, mode="plain")
            with rec.product("evaluate"):
                got = g(tv)
        rec.seen("circ", *[np.asarray(v) for v in kw.values()],
                 sample=dict(circular=kw))
        m = n or 1
        X, Y, Z = (np.reshape(x, (4 * m, -1)) for x in got[:3])
        a, P, R, b, inc, ci, ms, rho = (
            np.broadcast_to(x, sz).reshape(-1) for x in got[3:]
        )
        kk = np.broadcast_to(k, sz).reshape(-1)
        bb = np.broadcast_to(kw["b"], sz).reshape(-1)
        j = np.arange(m)
        sep = np.hypot(X, Y)
        # the separation at the start and the end of the transit
        want = R * (1 + kk)
        tol = 1e-9 * a + a * 2 * np.pi / P * 32 * ref.EPS * (
            np.abs(t0) + 8 * P)
        for row, what in ((0, "first"), (1, "last"), (3, "later")):
            rec.close("circular-contact", sep[row * m + j, j], want, tol,
                      what=what)
            rec.check("circular-contact", np.all(Z[row * m + j, j] > 0),
                      what="in front")
        rec.close("circular-contact", sep[2 * m + j, j], bb * R, tol,
                  what="impact parameter at mid transit")
        rec.close("circular-a", b, bb, 1e-14)
        phi = np.pi * np.broadcast_to(kw["duration"], sz).reshape(-1) / P
        aor = np.sqrt((1 + kk) ** 2 - bb**2 * np.cos(phi) ** 2) / np.sin(phi)
        rec.close("circular-a", a / R, aor, 1e-10 * aor)
        rec.close("circular-a", np.cos(inc), ci, 1e-12)
        rec.close("circular-a", ci, bb / aor, 1e-10)
        mp = np.broadcast_to(kw.get("m_planet", 0.0), sz).reshape(-1)
        rec.close("circular-a", ms + mp, 4 * np.pi**2 * a**3 / ref.G / P**2,
                  1e-9 * (ms + mp), what="Kepler III")
        rec.close("circular-a", rho, ms / (4 / 3 * np.pi * R**3) * ref.GCC,
                  1e-9 * np.abs(rho), what="density")
        if not with_r:
            rec.close("circular-a", R, 1.0 + 0 * R, 0)


def winn_duration(P, aor, e, w, b, k):
    """Equations 7, 14 and 16 of Winn (2010)"""
    ci = b / aor * (1 + e * np.sin(w)) / (1 - e**2)
    si = np.sqrt(1 - ci**2)
    return (
        P / np.pi * np.arcsin(np.sqrt((1 + k) ** 2 - b**2) / (aor * si))
        * np.sqrt(1 - e**2) / (1 + e * np.sin(w))
    )


def eccentric(rec, rng, i):
    n = gen.pick(rng, [None, 1, 2, 3])
    sz = () if n is None else (n,)
    with_ror = rng.random() < 0.7
    star = gen.pick(rng, ["m+r", "rho+r", "a", "none"])
    sincos = rng.random() < 0.4
    massive = rng.random() < 0.4
    style = gen.pick(rng, ["sym", "const"], [0.7, 0.3])
    low = rng.random() < 0.3
    rec.ctx["config"] = dict(n=n, ror=with_ror, star=star, sincos=sincos,
                             massive=massive, style=style)
    t = pt.dvector("t")
    names = ["b", "incl", "cos_incl", "a", "r_star", "duration"]

    def draw():
        while True:
            ms = float(rng.uniform(0.3, 2.0))
            rs = float(ms ** 0.9 * rng.uniform(0.8, 1.3))
            if star == "none":
                ms = rs = 1.0
            P = np.exp(rng.uniform(np.log(3.0), np.log(500), sz))
            mp = 10 ** rng.uniform(-6, -0.5, sz) if massive else np.zeros(sz)
            a = ref.a_from_period(P, ms + mp)
            e = rng.uniform(0, 0.02 if low else 0.8, sz)
            if rng.random() < 0.1:
                e = np.zeros(sz)
            w = gen.draw_angle(rng, sz)
            k = rng.uniform(0.001, 0.3, sz) if with_ror else np.zeros(sz)
            b = rng.uniform(0.03, 0.97, sz) * (1 + k)
            aor = a / rs
            if np.any(aor * (1 - e) < 2.5):
                continue
            if np.any(b / aor * (1 + e * np.sin(w)) / (1 - e**2) > 0.9):
                continue
            T = winn_duration(P, aor, e, w, b, k)
            if np.all(np.isfinite(T)):
                break
        kw = dict(period=P, ecc=e, duration=T)
        if star == "m+r":
            kw.update(m_star=ms, r_star=rs)
        elif star == "rho+r":
            kw.update(rho_star=ms / (4 / 3 * np.pi * rs**3) * ref.GCC,
                      r_star=rs)
        elif star == "a":
            kw.update(a=a, r_star=rs)
        if sincos:
            kw.update(sin_omega=np.sin(w), cos_omega=np.cos(w))
        else:
            kw["omega"] = w
        if with_ror:
            kw["ror"] = k
        if massive:
            kw["m_planet"] = mp
        kw["t0"] = np.asarray(rng.uniform(-5, 5, sz))
        return kw, dict(P=P, a=a, rs=rs, e=e, w=w, k=k, b=b, T=T)

    def outs(o):
        return [getattr(o, q) for q in names] + list(
            o.get_relative_position(t))

    f = None
    for _ in range(5 if style == "sym" else 1):
        kw, v = draw()
        rec.ctx["inputs"] = {q: np.asarray(x).tolist() for q, x in kw.items()}
        t0, T, P = (np.atleast_1d(x) for x in (kw["t0"], v["T"], v["P"]))
        tv = np.concatenate([t0 - T / 2, t0 + T / 2, t0])
        if style == "sym":
            if f is None:
                syms = {
                    q: (pt.dvector if np.ndim(x) else pt.dscalar)(q)
                    for q, x in kw.items()
                }
                with rec.product("build"):
                    oo = outs(KO(**syms))
                with rec.product("compile"):
                    f = fn(rng, list(syms.values()) + [t], oo)
            with rec.product("evaluate"):
                got = f(*[kw[q] for q in syms], tv)
        else:
            with rec.product("build"):
                oo = outs(KO(**{
                    q: gen.as_user_input(rng, x) for q, x in kw.items()
                }))
                g = fn(rng, [t], oo, mode="plain")
            with rec.product("evaluate"):
                got = g(tv)
        rec.seen("ecc", *[np.asarray(x) for x in kw.values()],
                 sample=dict(eccentric=kw))
        m = n or 1
        b, inc, ci, a, R, dur = (
            np.broadcast_to(x, sz).reshape(-1) for x in got[:6]
        )
        v = {q: np.broadcast_to(x, sz).reshape(-1) for q, x in v.items()}
        rec.close("winn", dur, v["T"], 1e-12 * v["T"])
        # the implied impact parameter gives the duration back
        Tb = winn_duration(v["P"], v["a"] / v["rs"], v["e"], v["w"], b,
                           v["k"])
        rec.close("winn", Tb, v["T"], 1e-8 * v["T"], what="duration(b)")
        rec.close("winn", b, v["b"], 1e-10 + 1e-10 / v["b"], what="b")
        rec.close("winn", np.cos(inc), ci, 1e-11)
        cosi = b * R / a * (1 + v["e"] * np.sin(v["w"])) / (1 - v["e"] ** 2)
        rec.close("winn", ci, cosi, 1e-10)
        # and the observed geometry has that impact parameter at t0
        X, Y, Z = (np.reshape(x, (3 * m, -1)) for x in got[6:])
        j = np.arange(m)
        sep = np.hypot(X, Y)
        rec.close("winn", sep[2 * m + j, j], b * R,
                  3e-4 * a * (np.sin(v["w"]) < -0.5) + 1e-8 * a,
                  what="separation at t0")
        # nearly circular: the contacts are where the duration says
        if low:
            for row in (0, 1):
                rec.close("eccentric-approx", sep[row * m + j, j],
                          R * (1 + v["k"]), 0.1 * R * (1 + v["k"]),
                          what="contact")


def helper(rec, rng, i):
    P, d, b, k = (pt.dvector(q) for q in ("P", "d", "b", "k"))
    with_ror = rng.random() < 0.6
    func = xo.orbits.keplerian.get_aor_from_transit_duration
    with rec.product("helper"):
        aor = func(d, P, b, ror=k if with_ror else None)[0]
        f = fn(rng, [d, P, b, k], aor)
    Pv = np.exp(rng.uniform(np.log(0.5), np.log(1000), 50))
    dv = Pv * np.exp(rng.uniform(np.log(1e-4), np.log(0.3), 50))
    kv = rng.uniform(0, 1.0, 50) if with_ror else np.zeros(50)
    bv = rng.uniform(0, 1, 50) * (1 + kv)
    with rec.product("helper"):
        got = f(dv, Pv, bv, kv)
    phi = np.pi * dv / Pv
    # the chord condition at the contact, solved independently
    rec.close("helper", got**2 * np.sin(phi) ** 2
              + bv**2 * np.cos(phi) ** 2, (1 + kv) ** 2,
              1e-9 * (1 + kv) ** 2)
    rec.seen("helper", Pv, dv)


def run_case(rec, rng, i):
    if i % 8 == 7:
        helper(rec, rng, i)
    elif i % 2:
        circular(rec, rng, i)
    else:
        eccentric(rec, rng, i)
