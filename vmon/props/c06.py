"""Every Jacobian that is reported is the derivative it claims to be

RULE: a case is one orbit, light curve or helper that reports Jacobians; an
execution compares the reported value with a Richardson-extrapolated difference
quotient of the attribute itself; non-trivial when the derivative is not zero.
"""

import numpy as np

from vmon import gen, ref
from vmon.env import pt, xo
from vmon.lib import KO, fn

CASES = {"quick": 1500, "thorough": 6000}
MIN = {"b->cos_incl": 300, "duration->a": 200, "duration->rho_star": 200,
       "duration->a_star": 200, "duration->a_planet": 200, "helper": 100,
       "delta->ror": 100}


def derivative(f, x):
    """central differences with Richardson extrapolation and error estimate"""
    def d(h):
        up, dn = f(x + h), f(x - h)
        return [(a - b) / (2 * h) for a, b in zip(up, dn)]

    h = 1e-4 * np.maximum(np.abs(x), 1e-3)
    d1, d2 = d(h), d(h / 2)
    out = [(4 * b - a) / 3 for a, b in zip(d1, d2)]
    err = [np.abs(a - b) for a, b in zip(d1, d2)]
    return out, err


def run_case(rec, rng, i):
    kind = i % 4
    if kind in (0, 1):
        duration_case(rec, rng, i)
    elif kind == 2:
        b_case(rec, rng, i)
    elif i % 8 == 3:
        helper_case(rec, rng)
    else:
        depth_case(rec, rng)


def duration_case(rec, rng, i):
    n = gen.pick(rng, [None, 1, 2, 3])
    sz = () if n is None else (n,)
    with_ror = rng.random() < 0.75
    with_m = rng.random() < 0.6
    with_r = rng.random() < 0.7
    unit = rng.random() < 0.2
    names = ["duration", "period", "b"]
    names += ["ror"] * with_ror + ["m_planet"] * with_m
    rec.ctx["config"] = dict(n=n, given=names, r_star=with_r, unit=unit)
    V = pt.dscalar if n is None else pt.dvector
    syms = {k: V(k) for k in names}
    if with_r:
        syms["r_star"] = pt.dscalar("r_star")
    attrs = ["a", "a_star", "a_planet", "rho_star"]
    with rec.product("build"):
        kw = dict(syms)
        o = KO(**kw)
        vals = [getattr(o, k) + pt.zeros_like(o.period) for k in attrs]
        jacs = [o.jacobians["duration"][k] for k in attrs]
        jacs.append(o.jacobians["b"]["cos_incl"])
        jacs.append(o.dcosidb)
        f = fn(rng, list(syms.values()), vals, mode="plain")
        g = fn(rng, list(syms.values()), jacs)
    for _ in range(4):
        P = np.exp(rng.uniform(np.log(0.5), np.log(500), sz))
        v = dict(
            period=P, duration=P * np.exp(rng.uniform(-6, -1.8, sz)),
            ror=rng.uniform(0, 0.4, sz), m_planet=10 ** rng.uniform(-6, 0, sz),
            r_star=float(rng.uniform(0.2, 4)),
        )
        v["b"] = rng.uniform(0, 0.95, sz) * (
            1 + (v["ror"] if with_ror else 0))
        if with_m and rng.random() < 0.7:
            # a companion of a few per cent up to most of the total mass
            phi = np.pi * v["duration"] / P
            k = v["ror"] if with_ror else 0.0
            aor = np.sqrt((1 + k) ** 2 - (v["b"] * np.cos(phi)) ** 2) / np.sin(
                phi)
            a = aor * (v["r_star"] if with_r else 1.0)
            mt = 4 * np.pi**2 * a**3 / ref.G / P**2
            v["m_planet"] = mt * rng.uniform(0.01, 0.8, sz)
        rec.ctx["inputs"] = {k: np.asarray(v[k]).tolist() for k in syms}
        x = np.asarray(v["duration"])

        def at(d):
            v2 = dict(v, duration=d)
            return f(*[v2[k] for k in syms])

        with rec.product("evaluate"):
            got = g(*[v[k] for k in syms])
            want, err = derivative(at, x)
            here = at(x)
        rec.seen(n, *[np.asarray(v[k]) for k in syms],
                 sample=rec.ctx["inputs"])
        for q, a, b, e, h in zip(attrs, got, want, err, here):
            tol = 1e-6 * np.abs(b) + e + 1e-10 * np.abs(h) / x
            if q in ("a_star", "a_planet"):
                tol = tol + 1e-10 * np.abs(here[0]) / x
            rec.close("duration->" + q, a + 0 * b, b, tol, what=q)
        R = v["r_star"] if with_r else 1.0
        rec.close("b->cos_incl", got[4] + 0 * here[0], R / here[0],
                  1e-10 * R / here[0])
        rec.close("b->cos_incl", got[5] + 0 * here[0], R / here[0],
                  1e-10 * R / here[0])


def b_case(rec, rng, i):
    spec = gen.Spec(rng, geom=gen.pick(rng, ["b", "b", "incl"]), style="sym",
                    min_sep=3.0, bmax=1.2)
    rec.ctx["config"] = spec.describe()
    f = g = None
    for _ in range(4):
        kw, o = spec.draw(rng)
        if f is None:
            syms = spec.symbols(kw)
            with rec.product("build"):
                kk = dict(syms)
                if spec.mass == "None":
                    kk["m_planet"] = None
                orb = KO(**kk)
                z = pt.zeros_like(orb.period) + pt.zeros_like(orb.cos_incl)
                f = fn(rng, list(syms.values()),
                       [orb.cos_incl + z, orb.b + z], mode="plain")
                g = fn(rng, list(syms.values()),
                       [orb.jacobians["b"]["cos_incl"] + z, orb.dcosidb + z])
        rec.ctx["inputs"] = {k: np.asarray(v).tolist() for k, v in kw.items()}
        with rec.product("evaluate"):
            jac, dcb = g(*[kw[k] for k in syms])
            if spec.geom == "b":
                def at(b):
                    k2 = dict(kw, b=b)
                    return f(*[k2[k] for k in syms])[:1]

                x = np.asarray(kw["b"])
                if not spec.vec["b"] and spec.n is not None:
                    h = 1e-3
                    want = (at(x + h)[0] - at(x - h)[0]) / (2 * h)
                else:
                    h = 1e-3
                    want = (at(x + h)[0] - at(x - h)[0]) / (2 * h)
            else:
                c, b = f(*[kw[k] for k in syms])
                # b is proportional to cos(i): the quotient is the derivative
                ok = np.abs(b) > 1e-8
                want = np.where(ok, c / np.where(ok, b, 1.0), jac)
        rec.seen(spec.key(), *[np.asarray(x) for x in kw.values()])
        want = want + 0 * jac
        rec.close("b->cos_incl", jac, want, 1e-7 * np.abs(want) + 1e-12)
        rec.close("b->cos_incl", dcb, want, 1e-7 * np.abs(want) + 1e-12)


def helper_case(rec, rng):
    P, d, b, k = (pt.dvector(q) for q in ("P", "d", "b", "k"))
    with_ror = rng.random() < 0.6
    func = xo.orbits.keplerian.get_aor_from_transit_duration
    with rec.product("helper"):
        aor, jac = func(d, P, b, ror=k if with_ror else None)
        f = fn(rng, [d, P, b, k], aor, mode="plain")
        g = fn(rng, [d, P, b, k], jac)
    Pv = np.exp(rng.uniform(np.log(0.5), np.log(1000), 40))
    dv = Pv * np.exp(rng.uniform(np.log(1e-4), np.log(0.3), 40))
    kv = rng.uniform(0, 1.0, 40)
    bv = rng.uniform(0, 0.97, 40) * (1 + kv * with_ror)
    with rec.product("helper"):
        got = g(dv, Pv, bv, kv)
        (want,), (err,) = derivative(lambda x: [f(x, Pv, bv, kv)], dv)
    rec.seen("helper", Pv, dv)
    rec.close("helper", got, want, err + 1e-6 * np.abs(want))


def depth_case(rec, rng):
    n = gen.pick(rng, [None, 1, 3])
    sz = () if n is None else (n,)
    V = pt.dscalar if n is None else pt.dvector
    dl, b = V("delta"), V("b")
    u1, u2 = pt.dscalar("u1"), pt.dscalar("u2")
    with rec.product("build"):
        lc = xo.LimbDarkLightCurve(u1, u2)
        ror, jac = lc.get_ror_from_approx_transit_depth(dl, b, jac=True)
        f = fn(rng, [dl, b, u1, u2], ror, mode="plain")
        g = fn(rng, [dl, b, u1, u2], jac)
    for _ in range(4):
        dv = 10 ** rng.uniform(-6, -0.7, sz)
        bv = rng.uniform(0, 0.98, sz)
        q1, q2 = rng.random(2)
        uu = (2 * np.sqrt(q1) * q2, np.sqrt(q1) * (1 - 2 * q2))
        rec.ctx["inputs"] = dict(delta=dv, b=bv, u=uu)
        with rec.product("evaluate"):
            got = g(dv, bv, *uu)
            (want,), (err,) = derivative(
                lambda x: [f(x, bv, *uu)], np.asarray(dv))
        rec.seen("depth", np.asarray(dv), np.asarray(bv))
        rec.close("delta->ror", got, want, err + 1e-6 * np.abs(want))
