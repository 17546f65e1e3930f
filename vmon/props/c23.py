"""A model's posterior is its priors times the likelihood of the real signal

RULE: a case is one PyMC model of priors, an orbit and the likelihood of a light
curve, of radial velocities or of both; an execution evaluates the log
probability where a sampler does and compares the signal with an independent
computation from the parameters, and the log probability with that of the same
priors plus the likelihood of that signal; non-trivial when the signal is not
constant.
"""

import pickle

import numpy as np
import pymc as pm

from vmon import gen, ref, ref_lc
from vmon.env import pt, pytensor, xo
from vmon.lib import PLAIN
from vmon.prior import Density

CASES = {"quick": 70, "thorough": 2500}
MIN = {"signal": 2000, "likelihood": 120, "start": 40, "gradient": 80,
       "gradient-finite": 500, "draws": 200, "pickle": 30, "names": 40,
       "kind:transit": 5, "kind:rv": 5, "kind:ttv": 5, "kind:simple": 5,
       "kind:joint": 5, "dimmed": 200, "unlisted": 2, "grazing-start": 3}
ASSUMPTIONS = ["the priors are those that C21 and C22 judge"]
TINY = 1e-11


def ecc_part(rng, n):
    """(expected names, function that makes ecc and omega)"""
    k = gen.pick(rng, ["none", "kipping13", "vaneylen19", "disk", "uniform"])
    sh = {} if n is None else dict(shape=n)
    zero = np.zeros(() if n is None else n)

    def make():
        if k == "none":
            return None, None
        if k == "kipping13":
            e = xo.distributions.eccentricity.kipping13(
                "ecc", fixed=True, upper=0.7, initval=zero + 0.2, **sh)
            return e, xo.angle("omega", **sh)
        if k == "vaneylen19":
            e = xo.distributions.eccentricity.vaneylen19(
                "ecc", multi=True, fixed=False, upper=0.7,
                initval=zero + 0.1, **sh)
            return e, xo.angle("omega", **sh)
        if k == "uniform":
            e = pm.Uniform("ecc", 0, 0.7, initval=zero + 0.3, **sh)
            return e, xo.angle("omega", initval=zero + 1.0, **sh)
        h, g = xo.unit_disk("h", "g", initval=np.stack(
            [zero + 0.3, zero - 0.2]), **sh)
        e = h**2 + g**2
        return e, pt.arctan2(g, h)
    return k, make


def full(x, n):
    return np.zeros(n or 1) + np.asarray(x, dtype=float).reshape(-1)


def ref_orbit(p, n):
    """the orbit that the parameters (vectors of length n or 1) describe"""
    e, w = p.get("ecc"), p.get("omega")
    ee, ww = (0.0, 0.0) if e is None else (e, w)
    a = ref.a_from_period(p["period"], p["m_star"])
    cosi = p["b"] * (1 + ee * np.sin(ww)) / (1 - ee**2) * p["r_star"] / a
    return ref.Orbit(
        period=p["period"], a=a, ecc=e, omega=w, incl=np.arccos(cosi),
        t0=p["t0"], m_star=p["m_star"], m_planet=0.0 * p["period"],
        r_star=p["r_star"])


def transit_flux(o, t, k, U, R):
    X, Y, Z = (ref.f64(q) for q in o.rel(t))
    b = np.hypot(X, Y) / R
    k = np.broadcast_to(k, b.shape)
    f = np.where(Z > 0, ref_lc.occultation(b, k, *U), 0.0)
    d = ref.f64(o.dt_rounding(t))
    a, P, e = (ref.f64(q) for q in (o.a, o.period, o.e))
    db = (2 * np.pi * a / P * np.sqrt((1 + e) / (1 - e)) * d + 2e-9 * a) / R
    tol = TINY + 2 * np.max([np.abs(np.where(Z > 0, ref_lc.occultation(
        b + q * db, k, *U), 0.0) - f) for q in (-1, 1, 0.3)], axis=0)
    return f.sum(axis=-1), tol.sum(axis=-1)


class Model:
    """what is shared by all of the kinds of models"""

    def __init__(self, rng, kind):
        self.kind = kind
        self.n = gen.pick(rng, [None, 1, 2])
        if kind == "ttv":
            self.n = gen.pick(rng, [1, 2])
        n = self.n
        m = n or 1
        sz = () if n is None else (n,)
        self.sh = {} if n is None else dict(shape=n)
        self.P = np.sort(rng.uniform(3, 15, m)).reshape(sz)
        self.t0 = rng.uniform(0, 2, sz)
        self.ek, self.ecc = ecc_part(rng, n)
        self.mode = gen.pick(rng, ["ror", "r"])
        self.ntr = [int(rng.integers(3, 6)) for _ in range(m)]
        # the transits that were seen, the last one included
        self.ids = [np.arange(m) for m in self.ntr]
        self.gaps = bool(rng.random() < 0.5) and kind == "ttv"
        if self.gaps:
            self.ids = [np.sort(rng.choice(m + 2, m, replace=False))
                        for m in self.ntr]
        # where the sampler starts, grazing transits included
        self.bstart = gen.pick(rng, [None, None, "zero", "in", "limb"])
        if self.bstart is not None:
            self.bstart = {"zero": 0.02, "in": 0.4, "limb": 1.03}[
                self.bstart] + np.zeros(sz)
        self.duration = bool(rng.random() < 0.2) and kind == "transit"
        if self.duration:
            self.ek, self.ecc = "none", lambda: (None, None)
        self.testval = rng.random() < 0.3
        self.order = int(rng.integers(3))
        # observations around the transits
        t = []
        for p, q in zip(np.atleast_1d(self.P), np.atleast_1d(self.t0)):
            for j in range(3):
                t.append(q + j * p + rng.uniform(-0.12, 0.12, 12))
        self.t = np.sort(np.concatenate(t))
        self.x = np.sort(rng.uniform(0, 60, 15))
        self.s = float(10 ** rng.uniform(-4, -2.5))
        self.y = 0.5 * self.s * rng.normal(size=len(self.t))
        self.v = rng.normal(size=15) * 10
        self.texp = float(rng.uniform(0.01, 0.05)) if (
            rng.random() < 0.25) else None

    def build(self, observed):
        sh, n = self.sh, self.n
        out = {}
        with pm.Model() as model:
            iv = "initval"
            t0 = pm.Normal("t0", self.t0, 0.01, **{iv: self.t0}, **sh)
            logP = pm.Normal("logP", np.log(self.P), 1e-3, **sh)
            P = pm.Deterministic("period", pt.exp(logP))
            if self.kind != "rv":
                u = xo.quad_limb_dark("u", **(dict(initval=np.array(
                    [0.3, 0.2])) if self.testval else {}))
                ror = pm.Uniform("ror", 0.02, 0.15, **sh)
                bk = {} if self.bstart is None else dict(initval=self.bstart)
                b = xo.impact_parameter("b", ror, **bk, **sh)
                out.update(u=u, ror=ror, b=b)
            m_star = pm.TruncatedNormal("m_star", 1.0, 0.1, lower=0.2)
            r_star = pm.TruncatedNormal("r_star", 1.0, 0.1, lower=0.2)
            out.update(t0=t0, period=P, m_star=m_star, r_star=r_star)
            kw = {}
            if self.kind in ("transit", "rv", "joint"):
                ecc, omega = self.ecc()
                if ecc is not None:
                    kw.update(ecc=ecc, omega=omega)
                    out.update(ecc=ecc, omega=omega)
            if self.kind == "simple" or self.duration:
                ld = pm.Normal("logdur", np.log(0.15), 0.1, **sh)
                out["duration"] = pt.exp(ld)
            if self.kind == "ttv":
                tt = []
                for j in range(n):
                    tt.append(pm.Normal(
                        "tt%d" % j, self.t0[j] + self.P[j] * self.ids[j],
                        0.01, shape=self.ntr[j]))
                gk = dict(transit_inds=self.ids) if self.gaps else {}
                orbit = xo.orbits.TTVOrbit(
                    transit_times=tt, b=b, m_star=m_star, r_star=r_star, **gk)
                for j in range(n):
                    out["tt%d" % j] = tt[j]
            elif self.kind == "simple":
                orbit = xo.orbits.SimpleTransitOrbit(
                    period=P, t0=t0, b=b, duration=out["duration"],
                    r_star=r_star, ror=ror)
            elif self.kind == "rv":
                orbit = xo.orbits.KeplerianOrbit(
                    period=P, t0=t0, m_star=m_star, r_star=r_star, **kw)
            elif self.duration:
                orbit = xo.orbits.KeplerianOrbit(
                    period=P, t0=t0, b=b, duration=out["duration"],
                    r_star=r_star, ror=ror, **kw)
                out["incl"], out["a"] = orbit.incl, orbit.a
            else:
                orbit = xo.orbits.KeplerianOrbit(
                    period=P, t0=t0, b=b, m_star=m_star, r_star=r_star, **kw)
            if self.kind != "rv":
                star = xo.LimbDarkLightCurve(u[0], u[1])
                ekw = {} if self.texp is None else dict(
                    texp=self.texp, oversample=5, order=self.order)
                lcs = star.get_light_curve(
                    orbit=orbit, r=ror * r_star, t=self.t, **ekw)
                mean = pm.Normal("mean", 0, 1e-3)
                flux = pm.Deterministic("flux", lcs.sum(axis=-1) + mean)
                out.update(flux=flux, mean=mean)
                if observed:
                    pm.Normal("obs", flux, self.s, observed=self.y)
            if self.kind in ("rv", "joint"):
                K = pm.LogNormal("K", np.log(10.0), 0.5, **sh)
                vr = orbit.get_radial_velocity(self.x, K=K)
                # a single companion of known length has no axis of its own
                vr = pt.reshape(vr, (len(self.x), n or 1)).sum(axis=-1)
                tr = pm.Normal("trend", 0, 1.0, shape=2)
                rv = pm.Deterministic(
                    "rv", vr + tr[0] + tr[1] * self.x / 30)
                out.update(K=K, trend=tr, rv=rv)
                if observed:
                    pm.Normal("obs_rv", rv, 2.0, observed=self.v)
        return model, out

    # -- the independent signal -------------------------------------------
    def flux(self, p):
        """(flux, tolerance) of the parameters p"""
        t = self.t
        if self.texp is not None:
            return None
        k = full(p["ror"], self.n)
        U = tuple(float(q) for q in p["u"])
        R = float(p["r_star"])
        if self.kind == "ttv":
            F, T = 0, 0
            for j in range(self.n):
                seen = np.asarray(p["tt%d" % j])
                per, t0 = np.polyfit(self.ids[j], seen, 1)
                idx = np.arange(self.ids[j].max() + 1)
                # the ephemeris of those that were seen gives the others
                tt = t0 + per * idx
                tt[self.ids[j]] = seen
                near = np.argmin(np.abs(t[:, None] - tt), axis=1)
                # every observation is close to a transit of some planet;
                # far from this one's transits the shift does not matter
                tj = t - (tt[near] - (t0 + per * idx[near]))
                o = ref_orbit(dict(
                    period=np.array([per]), t0=np.array([t0]),
                    b=full(p["b"], self.n)[[j]], m_star=float(p["m_star"]),
                    r_star=R), 1)
                f, e = transit_flux(o, tj, k[[j]], U, R)
                far = np.abs(t - tt[near]) > 0.35 * per
                e = e + 1e-12 / self.s * 0 + np.where(
                    far & (f != 0), np.inf, 0)
                # the fit of the period is not exact either
                d = 1e-12 * (1 + np.abs(t)) / 1e-3
                F, T = F + f, T + e + d * 1e-3
            return F + float(p["mean"]), T
        if self.kind == "simple":
            F = 0
            T = TINY
            b, D, P, t0 = (full(p[q], self.n) for q in (
                "b", "duration", "period", "t0"))
            for j in range(len(b)):
                x = t - t0[j]
                x = x - P[j] * np.round(x / P[j])
                v = 2 * np.sqrt((1 + k[j]) ** 2 - b[j] ** 2) / D[j]
                s = np.hypot(v * x, b[j])
                near = np.abs(x) <= D[j] / 2 * (1 + 1e-9)
                f = np.where(near, ref_lc.occultation(s, k[j], *U), 0)
                d = 1e-13 * (1 + np.abs(t)) * v
                T = T + 2 * np.max([np.abs(np.where(
                    near, ref_lc.occultation(s + q * d, k[j], *U), 0) - f)
                    for q in (-1, 1, 0.3)], axis=0)
                F = F + f
            return F + float(p["mean"]), T
        q = {c: full(p[c], self.n) for c in ("period", "t0", "b")}
        q.update(m_star=float(p["m_star"]), r_star=R)
        if "ecc" in p:
            q.update(ecc=full(p["ecc"], self.n),
                     omega=full(p["omega"], self.n))
        if self.duration:
            a = full(p["a"], self.n)
            o = ref.Orbit(
                period=q["period"], a=a, ecc=q.get("ecc"),
                omega=q.get("omega"), incl=full(p["incl"], self.n),
                t0=q["t0"], m_star=1.0, m_planet=0.0, r_star=R)
        else:
            o = ref_orbit(q, self.n)
        f, T = transit_flux(o, t, k, U, R)
        return f + float(p["mean"]), T

    def rv(self, p):
        q = {c: full(p[c], self.n) for c in ("period", "t0", "K")}
        q.update(b=0 * q["K"], m_star=float(p["m_star"]), r_star=1.0)
        if "ecc" in p:
            q.update(ecc=full(p["ecc"], self.n),
                     omega=full(p["omega"], self.n))
        o = ref_orbit(q, self.n)
        t = self.x
        e = ref.f64(o.e)

        def vel(tt):
            sf, cf, _ = o.anomaly_at_planet_times(tt)
            if o.circular:
                # the orbital angle is counted from the node
                return -q["K"] * np.sin(2 * np.pi * (
                    ref.f64(tt) - q["t0"]) / q["period"])
            w = q["omega"]
            return q["K"] * ref.f64(np.cos(w) * cf - np.sin(w) * sf
                                    + e * np.cos(w))

        d = o.dt_rounding(t)
        tt = np.asarray(t, dtype=ref.LD)[:, None] + 0 * d
        v = vel(tt)
        tol = 2 * np.max(np.abs([vel(tt + d) - v, vel(tt - d) - v]), axis=0)
        tr = p["trend"]
        return (v.sum(axis=1) + tr[0] + tr[1] * t / 30,
                tol.sum(axis=1) + 1e-8 * np.abs(q["K"]).sum() + 1e-10)


def normal(y, m, s):
    return float(np.sum(-0.5 * ((y - m) / s) ** 2 - np.log(s)
                        - 0.5 * np.log(2 * np.pi)))


def run_case(rec, rng, i):
    kind = ["transit", "rv", "ttv", "simple", "joint"][i % 5]
    rec.event("kind:" + kind)
    M = Model(rng, kind)
    rec.event("unlisted", M.gaps)
    rec.event("grazing-start", int(kind != "rv" and M.bstart is not None
                                   and np.max(M.bstart) > 1))
    rec.ctx["config"] = dict(kind=kind, n=M.n, bstart=M.bstart, ecc=M.ek, texp=M.texp,
                             duration=M.duration, P=M.P, t0=M.t0)
    with rec.product("model"):
        model, out = M.build(True)
        prior, pout = M.build(False)
        names = list(out)
        post = Density(model, [out[k] for k in names], jac=False)
        pri = Density(prior, [pout[k] for k in names], jac=False)
    rec.check("names", [v.name for v in post.vars]
              == [v.name for v in pri.vars])
    lp0 = post(post.start)[0]
    rec.check("start", np.isfinite(lp0), got=lp0)
    with rec.product("pickle"):
        again = pickle.loads(pickle.dumps(post.f))

    def point(z, rule="signal"):
        with rec.product("evaluate"):
            lp, vals = post(z)
            lq, vq = pri(z)
        p = dict(zip(names, vals))
        rec.ctx["params"] = {k: v for k, v in p.items()
                             if k not in ("flux", "rv")}
        for a, b in zip(vals, vq):
            rec.check("names", np.array_equal(a, b))
        like = 0.0
        ok = signal(p, rule)
        if "flux" in p:
            like += normal(M.y, p["flux"], M.s)
        if "rv" in p:
            like += normal(M.v, p["rv"], 2.0)
        rec.close("likelihood", lp - lq, like,
                  1e-7 * (1 + abs(lp) + abs(lq) + abs(like)))
        return ok, p, lp

    def signal(p, rule):
        ok = False
        if "flux" in p:
            r = M.flux(p)
            if r is not None:
                rec.close(rule, p["flux"], r[0], r[1])
                rec.event("dimmed", int(np.sum(r[0] - p["mean"] < -1e-6)))
            ok |= bool(np.ptp(p["flux"]) > 0)
        if "rv" in p:
            r = M.rv(p)
            rec.close(rule, p["rv"], r[0], r[1])
            ok |= bool(np.ptp(p["rv"]) > 0)
        return ok

    for k in range(4):
        z = post.start + (0 if k == 0 else rng.normal(size=post.nz) * 0.3
                          * np.maximum(scales(post, M), 0))
        ok, p, lp = point(z)
        rec.check("pickle", float(again(z)[0]) == lp)
        rec.seen(kind, z, nontrivial=ok, sample=dict(rec.ctx))
        if k < 3:
            gradient(rec, rng, post, z, M)
    # draws of the generative model: signals belong to their parameters
    if i % 2 == 0:
        with rec.product("draws"):
            D = pm.draw([pout[k] for k in names], draws=6,
                        random_seed=int(rng.integers(2**31)), mode=PLAIN)
        for d in range(6):
            p = {k: np.asarray(q[d]) for k, q in zip(names, D)}
            rec.ctx["params"] = {k: v for k, v in p.items()
                                 if k not in ("flux", "rv")}
            signal(p, "draws")


def scales(post, M):
    """the width of every unconstrained coordinate"""
    out = []
    for v, s, n in zip(post.vars, post.shapes, post.sizes):
        w = 1.0
        if v.name == "t0" or v.name.startswith("tt"):
            w = 0.01
        elif v.name == "logP" or v.name == "mean":
            w = 1e-3
        elif v.name == "logdur":
            w = 0.1
        elif "m_star" in v.name or "r_star" in v.name:
            w = 0.1
        out.append(np.full(n, w))
    return np.concatenate(out) if out else np.zeros(0)


def gradient(rec, rng, post, z, M):
    from vmon.props.c20 import ridders

    with rec.product("gradient"):
        g = np.asarray(post.g(z))
    if not rec.check("gradient-finite", np.all(np.isfinite(g)), n=g.size,
                     got=g, z=z):
        return
    d = rng.normal(size=post.nz) * scales(post, M)

    def at(h):
        return float(post.f(z + h * d)[0])

    (n1, e1), (n2, e2) = ridders(at, 3e-3), ridders(at, 3e-4)
    num, err = (n1, e1) if e1 < e2 else (n2, e2)
    # contacts make the second derivative infinite
    err = err + 0.1 * abs(n1 - n2)
    ana = float(g @ d)
    mag = float(np.sum(np.abs(g * d)))
    if err > 1e-3 * (1 + mag):
        # a contact of some exposure in between: the derivative is not smooth
        rec.event("kink")
        return
    rec.close("gradient", ana, num, 30 * err + 1e-3 * (1 + mag), z=z)
