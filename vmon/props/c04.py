"""t0, t_periastron, b, incl and omega mean what the documentation says

RULE: a case is one parameterisation; an execution reads the epoch, angle and
impact attributes and observes the companion at every transit and periastron
epoch; non-trivial when the orbit is inclined or eccentric.
"""

import numpy as np

from vmon import gen, ref
from vmon.env import pt
from vmon.lib import System

CASES = {"quick": 950, "thorough": 6000}
MIN = {"conjunction": 1000, "in-front": 1000, "impact": 1000,
       "periastron": 1000, "attributes": 1000, "periodic": 500}

ATTRS = ("t0", "t_periastron", "b", "incl", "cos_incl", "sin_incl", "period",
         "a", "r_star")


def run_case(rec, rng, i):
    force = dict(tbig=(i % 7 == 0))
    if i % 5 == 0:
        force.update(ecc=gen.pick(rng, ["omega", "sincos"]))
    if i % 11 == 0:
        force.update(emax=0.97)
    spec = gen.Spec(rng, **force)
    tt = pt.dvector("tt")
    tp = pt.dvector("tp")

    def outs(orbit, tt, tp):
        out = [getattr(orbit, k) for k in ATTRS]
        out += list(orbit.get_relative_position(tt))
        out += list(orbit.get_relative_position(tp))
        if spec.ecc != "none":
            out += [orbit.omega, orbit.cos_omega, orbit.sin_omega, orbit.ecc]
        return out

    system = System(rec, rng, spec, outs, [tt, tp])
    for _ in range(system.ndraws):
        kw, o = spec.draw(rng)
        n = max(1, int(np.prod(o.shape)))
        t0 = np.broadcast_to(ref.f64(o.t0), o.shape).reshape(-1)
        tperi = np.broadcast_to(ref.f64(o.tperi), o.shape).reshape(-1)
        P = np.broadcast_to(ref.f64(o.period), o.shape).reshape(-1)
        ks = rng.integers(-20, 21, size=n)
        ttv = np.concatenate([t0, t0 + ks * P])
        tpv = np.concatenate([tperi, tperi + ks * P])
        got = system(kw, ttv, tpv)
        g = dict(zip(ATTRS, got))
        rec.seen(spec.key(), *[np.asarray(x) for x in kw.values()],
                 sample=dict(config=spec.describe(), inputs=kw))

        def full(x):
            return np.broadcast_to(
                np.asarray(x, dtype=float), o.shape
            ).reshape(-1)

        def ext(x):
            return np.reshape(np.asarray(x, dtype=float), (2 * n, -1))

        X, Y, Z = (ext(x) for x in got[len(ATTRS):len(ATTRS) + 3])
        Xp, Yp, Zp = (ext(x) for x in got[len(ATTRS) + 3:len(ATTRS) + 6])
        a, R = full(g["a"]), full(g["r_star"])
        e = ref.f64(np.broadcast_to(o.e, o.shape)).reshape(-1)
        w = ref.f64(np.broadcast_to(o.w, o.shape)).reshape(-1)
        inc = ref.f64(np.broadcast_to(o.incl, o.shape)).reshape(-1)
        Om = ref.f64(np.broadcast_to(o.Om, o.shape)).reshape(-1)
        b = full(g["b"])

        # attributes
        dt = 64 * ref.EPS * (np.abs(t0) + np.abs(tperi) + P)
        # omega given as sin and cos is only known to rounding, which moves
        # the transit within the orbit
        dt = dt + 1e-12 * P / (1 - e) ** 2
        # which of the periodic passages is reported is not specified
        for what, x, y in (("t0", full(g["t0"]), t0),
                           ("t_periastron", full(g["t_periastron"]), tperi)):
            d = (x - y) - P * np.round((x - y) / P)
            rec.close("attributes", d, 0 * d, dt, what=what, got_t=x)
            rec.check("attributes", np.all(np.abs(x - y) < 3 * P), what=what)
        if "t0" in kw:
            rec.close("attributes", g["t0"] + 0.0, kw["t0"],
                      1e-14 * np.abs(kw["t0"]), what="t0 as given")
        if "t_periastron" in kw:
            rec.close("attributes", g["t_periastron"] + 0.0,
                      kw["t_periastron"],
                      1e-14 * np.abs(kw["t_periastron"]), what="given")
        if spec.epoch == "none":
            rec.close("attributes", full(g["t0"]), 0 * t0, 0.0, what="t0=0")
        rec.close("attributes", full(g["cos_incl"]), np.cos(inc), 1e-10)
        rec.close("attributes", full(g["sin_incl"]), np.sin(inc), 1e-9)
        rec.close("attributes", full(g["incl"]), inc, 1e-7, what="incl")
        if "b" in kw:
            rec.close("attributes", full(g["b"]), full(kw["b"]), 1e-13)
        bw = a / R * np.cos(inc) * (1 - e**2)
        bw = bw / ((1 + e * np.sin(w)) if spec.ecc != "none" else 1.0)
        rec.close("attributes", b, bw, 1e-9 * (a / R), what="b(incl)")
        if spec.geom == "none":
            rec.close("attributes", b, 0 * b, 0.0, what="edge on")
        if spec.ecc != "none":
            om, co, so, ee = got[-4:]
            rec.close("attributes", full(co), np.cos(w), 1e-12)
            rec.close("attributes", full(so), np.sin(w), 1e-12)
            rec.close("attributes", np.exp(1j * (full(om) - w)).real,
                      np.ones(n), 1e-9, what="omega")
            rec.close("attributes", np.sin(full(om)), np.sin(w), 1e-12)
            rec.close("attributes", full(ee), e, 1e-14)

        # the companion at the transit epochs of its own column
        r_tr = a * (1 - e**2) / (1 + e * np.sin(w))
        if spec.ecc == "none":
            r_tr = a
        jj = np.concatenate([np.arange(n), np.arange(n)])
        cols = jj if X.shape[1] == n else np.zeros(2 * n, int)
        rows = np.arange(2 * n)
        x, y, z = X[rows, cols], Y[rows, cols], Z[rows, cols]
        d = ref.f64(o.dt_rounding(ttv))
        d = d[rows, cols] if o.shape else d
        v = (2 * np.pi * a / P * np.sqrt((1 + e) / (1 - e)))[jj]
        tol = 4 * v * d + 1e-9 * a[jj]
        # along the orbit the conjunction happens when the companion is at its
        # largest Z for the sky direction of the node: project on the node line
        u = x * np.cos(Om[jj]) + y * np.sin(Om[jj])
        q = -x * np.sin(Om[jj]) + y * np.cos(Om[jj])
        rec.close("conjunction", u, 0 * u, tol, t=ttv)
        rec.check("in-front", np.all(z - r_tr[jj] * np.sin(inc[jj])
                                     > -tol), n=2 * n, z=z,
                  want=r_tr[jj] * np.sin(inc[jj]), t=ttv)
        rec.close("impact", np.hypot(x, y), np.abs(b[jj] * R[jj]),
                  2 * tol, t=ttv)
        rec.close("impact", q, -(b[jj] * R[jj]), 2 * tol, t=ttv,
                  what="hemisphere")
        rec.close("periodic", np.hypot(np.hypot(x, y), z), r_tr[jj],
                  2 * tol)
        # at periastron the distance is a (1 - e)
        x, y, z = Xp[rows, cols], Yp[rows, cols], Zp[rows, cols]
        d = ref.f64(o.dt_rounding(tpv))
        d = d[rows, cols] if o.shape else d
        rec.close("periastron", np.sqrt(x * x + y * y + z * z),
                  (a * (1 - e))[jj],
                  1e-9 * a[jj] + 4 * v * d, t=tpv)
        if spec.ecc == "none":
            rec.close("periastron", z, 0 * z, 4 * v * d + 1e-9 * a[jj],
                      what="quarter period")
        else:
            rec.close("periastron", z,
                      (a * (1 - e) * np.sin(w) * np.sin(inc))[jj],
                      1e-8 * a[jj] + 8 * v * d, what="line of sight")
