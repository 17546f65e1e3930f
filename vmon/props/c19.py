"""Companions and timestamps never influence each other

RULE: a case is one system with two or three companions, given as vectors and
scalars; an execution evaluates every method for all companions together, for
each companion alone, for permuted, repeated and reshaped times and for other
forms of the same inputs, and compares value by value; non-trivial always,
since the companions differ.
"""

import numpy as np

from vmon import gen, hooks, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import KO, fn

CASES = {"quick": 150, "thorough": 12000}
MIN = {"alone": 20000, "permuted": 20000, "matrix": 10000, "forms": 20000,
       "in-transit": 2000, "single-time": 2000, "light-delay": 15,
       "columns": 500, "delay:on": 15, "kind:ttv": 8, "kind:simple": 5,
       "kind:kepler": 50, "flux-columns": 1000, "eclipse-columns": 1000,
       "eclipsed": 100}
ASSUMPTIONS = ["eccentricities below 0.85"]


def vectors(o, t, r, texp, over, delay, kind, matrix=False):
    ld = dict(light_delay=True) if delay else {}
    out = []
    if kind == "simple":
        out += list(o.get_relative_position(t))
        return out
    out += list(o.get_relative_position(t, **ld))
    out += list(o.get_planet_position(t, **ld))
    out += list(o.get_star_position(t, **ld))
    out += list(o.get_relative_velocity(t))
    out += list(o.get_planet_velocity(t))
    out += list(o.get_star_velocity(t))
    out += list(o.get_relative_acceleration(t))
    out += list(o.get_planet_acceleration(t))
    out += list(o.get_star_acceleration(t))
    out += [o.get_radial_velocity(t)]
    out += list(o.get_relative_angles(t, parallax=0.02, **ld))
    return out


ANGLE = 29 - 1  # position of the position angle in the list above


def flux(o, t, r, texp, over, delay, U):
    star = xo.LimbDarkLightCurve(*U)
    return star.get_light_curve(orbit=o, r=r, t=t, texp=texp,
                                oversample=over, light_delay=delay,
                                use_in_transit=False)


def eclipse(o, t, r, texp, over, delay, U):
    lc = xo.SecondaryEclipseLightCurve(U, [0.2, 0.3], 0.4)
    return lc.get_light_curve(orbit=o, r=r, t=t, texp=texp, oversample=over,
                              light_delay=delay, use_in_transit=False)


def simple_draw(rng, n):
    P = np.exp(rng.uniform(0, 5, n))
    ror = rng.uniform(0.01, 0.2, n)
    return dict(period=P, duration=P * rng.uniform(0.01, 0.2, n),
                t0=rng.uniform(-50, 50, n), b=rng.uniform(0, 0.9, n),
                ror=ror, r_star=float(rng.uniform(0.5, 2)))


def run_case(rec, rng, i):
    kind = gen.pick(rng, ["kepler", "ttv", "simple"], [0.7, 0.17, 0.13])
    rec.event("kind:" + kind)
    n = int(rng.integers(2, 4))
    delay = kind != "simple" and rng.random() < 0.3
    rec.event("delay:" + ("on" if delay else "off"))
    fixed = {}
    if kind == "simple":
        kw = simple_draw(rng, n)
        o = None
        cls = xo.orbits.SimpleTransitOrbit
        P, t0 = kw["period"], kw["t0"]
        R = kw["r_star"]
    else:
        spec = gen.Spec(rng, n=n, emax=0.85, min_sep=2.5, tbig=False,
                        style="sym", pmax=300.0, retro=True)
        if spec.mass == "None":
            fixed["m_planet"] = None
        kw, o = spec.draw(rng)
        cls = KO
        P = np.broadcast_to(ref.f64(o.period), (n,))
        t0 = np.broadcast_to(ref.f64(o.t0), (n,))
        R = float(o.r_star)
        if kind == "ttv":
            cls = xo.orbits.TTVOrbit
            if spec.epoch == "none":
                kw["t0"] = t0
            if spec.size == "a":
                kw.pop("a")
                kw["period"] = P
            ttvs = [0.01 * p * rng.uniform(-1, 1, int(rng.integers(2, 8)))
                    for p in P]
    k = rng.uniform(0.01, 0.3, n)
    over = int(rng.integers(2, 6))
    texp = float(0.05 * np.min(P))
    U = ref_lc.kipping(rng)
    rec.ctx["config"] = dict(dict(n=n), kind=kind, delay=delay,
                             **(spec.describe() if o is not None else {}))
    rec.ctx["inputs"] = kw
    N = 16
    if o is not None:
        tv = gen.times(rng, o, N, far=False)
    else:
        tv = t0[rng.integers(0, n, N)] + P[rng.integers(0, n, N)] * \
            rng.uniform(-3, 3, N)
    # a few in transit (or, for circular orbits, in eclipse) for sure
    j = rng.integers(0, n, 5)
    tv[:5] = t0[j] + P[j] * (rng.normal(size=5) * 0.01
                             + rng.choice([0, 0, 0.5], 5))

    def build(args, ttv=None):
        if kind == "ttv":
            args = dict(args, ttvs=ttv)
        return cls(**args, **fixed)

    t, tm, r = pt.dvector("t"), pt.dmatrix("tm"), pt.dvector("r")
    syms = {q: (pt.dvector if np.ndim(v) else pt.dscalar)(q)
            for q, v in kw.items()}
    ts = [pt.dvector("v%d" % q) for q in range(n)] if kind == "ttv" else None
    with rec.product("build"):
        orb = build(syms, ts)
        outs = vectors(orb, t, r, texp, over, delay, kind)
        nv = len(outs)
        outs += [flux(orb, t, r * R, texp, over, delay, U),
                 orb.in_transit(t, r=r * R, texp=texp)]
        if kind == "kepler":
            outs += [eclipse(orb, t, r * R, texp, over, delay, U)]
        mouts = vectors(orb, tm, r, texp, over, delay, kind)
    inputs = list(syms.values()) + (ts or [])
    vals = list(kw.values()) + (ttvs if kind == "ttv" else [])
    with rec.product("compile"):
        f = fn(rng, inputs + [t, r], outs, mode="plain")
        fm = fn(rng, inputs + [tm], mouts, mode="plain")
    with rec.product("evaluate"), hooks.observe(rec):
        base = f(*vals, tv, k)
    # what rounding can do
    if o is not None:
        e = ref.f64(o.e) + np.zeros(n)
        dt = np.max(o.dt_rounding(tv), axis=0).astype(float) + np.zeros(n)
        amp = (1e-11 + 2 * np.pi / P * dt) / (1 - e) ** 4
    else:
        amp = 1e-11 + 1e-13 * (np.abs(tv).max() + np.abs(t0)) / P
    amp = 20 * amp

    def rows(x):
        return np.asarray(x, dtype=float).reshape(N, n)

    ok_shape = all(np.asarray(x).shape == (N, n) for x in base[:nv])
    rec.check("columns", ok_shape and base[nv].shape == (N, n), n=nv,
              got=[np.shape(x) for x in base[: nv + 1]])
    if not ok_shape:
        return
    sizes = [np.max(np.abs(rows(x)), axis=0) + 1e-300 for x in base[:nv]]
    if o is not None:
        # components of one vector share a scale
        for q in range(0, 27, 3):
            m = np.max(sizes[q: q + 3], axis=0)
            for c in range(3):
                sizes[q + c] = m
        sizes[27] = sizes[27] * 3
        sizes[28] = sizes[0] * 0.02 * ref.AU_PER_RSUN

    def same(rule, got, want, sel=slice(None), **w):
        """``sel`` selects the columns"""
        for q in range(nv):
            a, b = np.asarray(got[q]), np.asarray(want[q])
            if a.shape != b.shape:
                rec.violate(rule + ":shape", got=a.shape, want=b.shape,
                            output=q, **w)
                return
            tol = amp[sel] * sizes[q][sel]
            if o is not None and q == 29:
                # the angle is as good as the separation is large
                rho = np.abs(np.asarray(want[28])) + 1e-300
                tol = amp[sel] * sizes[28][sel] / rho * 5 + 1e-12
                a = b + np.angle(np.exp(1j * (a - b)))
                tol = np.where(tol > 1, 10, tol)
            rec.close(rule, a, b, tol, output=q, **w)

    fluxtol = 1e-9 + 6 * amp * (
        (sizes[0] / R) if o is not None else sizes[0] / R)
    # each one alone
    mask = np.zeros(N, bool)
    amb = np.zeros(N, bool)
    delta = 1e-9 * P + 1e-12 * np.abs(tv).max()
    for j in range(n):
        one = {q: (np.asarray(v)[j] if np.ndim(v) else v)
               for q, v in kw.items()}
        if kind == "ttv":
            one = {q: (np.atleast_1d(np.asarray(v)[j])
                       if np.ndim(v) else v) for q, v in kw.items()}
        with rec.product("build"):
            single = build(
                {q: gen.as_user_input(rng, v) for q, v in one.items()},
                [ttvs[j]] if kind == "ttv" else None)
            rj = np.array([k[j] * R]) if kind == "ttv" else float(k[j] * R)
            so = vectors(single, t, rj, texp, over, delay, kind)
            so += [flux(single, t, rj, texp, over, delay, U)]
            t3 = pt.concatenate([t, t - delta[j], t + delta[j]])
            so += [single.in_transit(t3, r=rj, texp=texp)]
            if kind == "kepler":
                so += [eclipse(single, t, rj, texp, over, delay, U)]
        with rec.product("compile"):
            g = fn(rng, [t], so, mode="plain")
        with rec.product("evaluate"), hooks.observe(rec):
            got = g(tv)
        same("alone", [np.asarray(x).reshape(-1) for x in got[:nv]],
             [rows(x)[:, j] for x in base[:nv]], sel=j, companion=j)
        rec.close("flux-columns", np.asarray(got[nv]).reshape(-1),
                  base[nv][:, j], fluxtol[j], companion=j)
        if kind == "kepler":
            rec.close("eclipse-columns", np.asarray(got[-1]).reshape(-1),
                      base[-1][:, j], 5 * fluxtol[j] / k[j], companion=j)
            rec.event("eclipsed", np.sum(np.abs(base[-1][:, j]) > 1e-9))
        m = np.zeros(3 * N, bool)
        m[got[nv + 1]] = True
        m = m.reshape(3, N)
        mask |= m[0]
        amb |= np.any(m != m[0], axis=0)
    got_mask = np.zeros(N, bool)
    got_mask[base[nv + 1]] = True
    rec.check("in-transit", np.array_equal(got_mask[~amb], mask[~amb]),
              n=int((~amb).sum()), t=tv[~amb & (got_mask != mask)])
    # permuted, repeated and missing times
    perm = rng.integers(0, N, N + 4)
    perm[:N] = rng.permutation(N)
    with rec.product("evaluate"):
        got = f(*vals, tv[perm], k)
    same("permuted", [np.asarray(x).reshape(N + 4, n) for x in got[:nv]],
         [rows(x)[perm] for x in base[:nv]])
    rec.close("flux-columns", got[nv], base[nv][perm],
              np.broadcast_to(fluxtol, (N + 4, n)))
    pm = np.zeros(N + 4, bool)
    pm[got[nv + 1]] = True
    rec.check("in-transit", np.array_equal(pm, got_mask[perm]), n=N + 4)
    s = int(rng.integers(N))
    with rec.product("evaluate"):
        got = f(*vals, tv[s: s + 1], k)
    same("single-time", [np.asarray(x).reshape(1, n) for x in got[:nv]],
         [rows(x)[s: s + 1] for x in base[:nv]])
    # times of any shape
    with rec.product("evaluate"):
        got = fm(*vals, tv.reshape(4, 4))
    same("matrix", [np.asarray(x) for x in got],
         [rows(x).reshape(4, 4, n) for x in base[:nv]])
    # the same numbers in other clothes
    with rec.product("build"):
        other = build({q: gen.as_user_input(rng, v) for q, v in kw.items()},
                      ttvs if kind == "ttv" else None)
        tin = gen.pick(rng, [tv, tv.tolist(), pt.constant(tv)])
        so = vectors(other, tin, r, texp, over, delay, kind)
        g = fn(rng, [], so, mode="plain")
    with rec.product("evaluate"):
        got = g()
    same("forms", [rows(x) for x in got], [rows(x) for x in base[:nv]])
    rec.event("light-delay", delay)
    rec.seen(repr(rec.ctx["config"]), tv, *kw.values(),
             sample=dict(config=rec.ctx["config"], inputs=kw))
