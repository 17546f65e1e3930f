"""The form in which values are given never matters, only the values do

RULE: a case is one call of the public interface with values for all of its
inputs; an execution makes the same call with the values in other containers,
number types, memory layouts or kinds of tensors and compares the results with
those for plain double precision arrays; non-trivial when some input has another
form.
"""

import numpy as np
import pandas as pd

from vmon import gen
from vmon.env import pt, pytensor, xo
from vmon.lib import PLAIN

CASES = {"quick": 640, "thorough": 20000}
MIN = {"equal": 800, "shape": 800, "form:int": 50, "form:small": 50, "form:float32": 100,
       "form:list": 100, "form:strided": 100, "form:series": 50,
       "form:shared": 100, "form:symbol": 100, "form:pt": 100,
       "call:kepler": 60, "call:ttv": 40, "call:simple": 40,
       "call:interp": 20, "call:eclipse": 20, "call:duration": 20,
       "call:estimator": 20}
ASSUMPTIONS = ["all values are representable in every form that is used"]


def coarse(rng, lo, hi, size=()):
    """numbers that single precision represents"""
    return np.asarray(np.round(rng.uniform(lo, hi, size) * 64) / 64)


class Forms:
    """draws other forms of the same values"""

    def __init__(self, rec, rng, tensors=True):
        self.rec, self.rng, self.tensors = rec, rng, tensors
        self.givens = []
        self.log = {}

    def __call__(self, name, v):
        rng = self.rng
        v = np.asarray(v)
        opts = ["same", "float32", "readonly"]
        whole = bool(np.all(v == np.round(v)))
        if whole:
            opts += ["int", "int32", "intlist", "small"]
        if v.ndim == 0:
            opts += ["python", "npscalar"]
        else:
            opts += ["list", "tuple", "strided", "reversed"]
        if v.ndim == 2:
            opts += ["fortran"]
        if v.ndim == 1 and name in ("t", "x", "y", "texp"):
            # the columns of tables that hold the observations
            opts += ["series"]
        if not self.tensors:
            # NumPy itself computes in single precision then
            opts.remove("float32")
        if self.tensors:
            opts += ["pt", "shared", "symbol", "pt32", "expression"]
        k = gen.pick(rng, opts)
        self.rec.event("form:" + k)
        self.log[name] = k
        if k == "same":
            return v.astype(float)
        if k == "float32":
            return v.astype(np.float32)
        if k == "readonly":
            w = v.astype(float)
            w.setflags(write=False)
            return w
        if k == "int":
            return v.astype(np.int64)
        if k == "int32":
            return v.astype(np.int32)
        if k == "intlist":
            return v.astype(int).tolist()
        if k == "small":
            # the shortest integers that hold the values
            u = v.astype(int)
            if u.size == 0:
                return u
            return u.astype(np.result_type(np.min_scalar_type(u.min()),
                                           np.min_scalar_type(u.max())))
        if k in ("python", "list"):
            return v.astype(float).tolist()
        if k == "npscalar":
            return np.float64(v)
        if k == "tuple":
            return tuple(v.astype(float).tolist())
        if k == "strided":
            w = np.full((2 * v.shape[0],) + v.shape[1:], np.nan)
            w[::2] = v
            return w[::2]
        if k == "reversed":
            return np.array(v[::-1], dtype=float)[::-1]
        if k == "fortran":
            return np.asfortranarray(v.astype(float))
        if k == "series":
            return pd.Series(v.astype(float),
                             index=rng.permutation(len(v)) + 100)
        if k == "pt":
            return pt.constant(v.astype(float))
        if k == "pt32":
            return pt.constant(v.astype(np.float32))
        if k == "expression":
            return pt.constant(v.astype(float)) * 1.0
        if k == "shared":
            return pytensor.shared(v.astype(float))
        s = pt.TensorType("float64", (None,) * v.ndim)(name)
        self.givens.append((s, v.astype(float)))
        return s


def evaluate(outs, givens=()):
    f = pytensor.function([s for s, _ in givens], list(outs), mode=PLAIN,
                          on_unused_input="ignore")
    return f(*[v for _, v in givens])


def star(rng):
    if rng.random() < 0.5:
        return np.array(1.0), np.array(0.0)
    return coarse(rng, 0, 0.5), coarse(rng, 0, 0.4)


def whole(rng, V, sh):
    V["t0"] = np.round(V["t0"]) + gen.pick(rng, [0.0, 700.0, 40000.0])
    V["m_star"] = np.array(float(rng.integers(1, 9)))
    V["r_star"] = np.array(float(rng.integers(1, 25)))
    if rng.random() < 0.5:
        V["period"] = rng.integers(60, 3000, sh).astype(float)
    else:
        del V["period"]
        V["a"] = rng.integers(120, 900, sh).astype(float)
    u = rng.random()
    if u < 0.3:
        V["m_planet"] = rng.integers(0, 3, sh).astype(float)
    if u > 0.6:
        V["rho_star"] = np.array(float(rng.integers(1, 9)))
        del V[gen.pick(rng, ["m_star", "r_star"])]
    if "b" in V and rng.random() < 0.5:
        V["b"] = np.round(V["b"])


def kepler(rng, n):
    sh = () if n is None else (n,)
    V = dict(period=coarse(rng, 3, 20, sh), t0=coarse(rng, -3, 3, sh),
             m_star=coarse(rng, 0.8, 1.4), r_star=coarse(rng, 0.8, 1.2))
    if rng.random() < 0.5:
        V["b"] = coarse(rng, 0, 0.8, sh)
    else:
        V["incl"] = coarse(rng, 1.45, 1.57, sh)
    if rng.random() < 0.3:
        V["period"] = np.ceil(V["period"])
        V["t0"] = np.round(V["t0"])
        V["m_star"] = V["r_star"] = np.array(1.0)
    elif rng.random() < 0.4:
        # giants, long periods and dates
        whole(rng, V, sh)
    if rng.random() < 0.6:
        V["ecc"] = coarse(rng, 0, 0.6, sh)
        if rng.random() < 0.2:
            V["ecc"] = np.zeros(sh)
        V["omega"] = coarse(rng, -3, 3, sh)
        if rng.random() < 0.3:
            V["omega"] = np.round(V["omega"])
    if rng.random() < 0.4:
        V["Omega"] = coarse(rng, -3, 3, sh)
    if rng.random() < 0.4 and "m_planet" not in V:
        V["m_planet"] = coarse(rng, 0, 0.3, sh)
    u1, u2 = star(rng)
    T = np.concatenate([V["t0"].ravel() + coarse(rng, -0.2, 0.2, V[
        "t0"].size), coarse(rng, -30, 30, 12), [0.0, 1.0]])
    if rng.random() < 0.3:
        T = np.round(T)
    E = dict(t=T, r=coarse(rng, 0.02, 0.3, sh), u1=u1, u2=u2,
             texp=coarse(rng, 0.02, 0.2, ()
                         if rng.random() < 0.5 else T.shape),
             K=coarse(rng, 1, 30, sh))
    opts = dict(texp=rng.random() < 0.5, order=int(rng.integers(3)),
                use=bool(rng.random() < 0.7))

    def call(w):
        o = xo.orbits.KeplerianOrbit(**{k: w[k] for k in V})
        kw = dict(use_in_transit=opts["use"])
        if opts["texp"]:
            kw.update(texp=w["texp"], oversample=3, order=opts["order"])
        out = [o.a, o.period, o.rho_star, o.r_star, o.m_star, o.m_planet]
        out += list(o.get_relative_position(w["t"]))
        out += list(o.get_planet_velocity(w["t"]))
        out += list(o.get_star_acceleration(w["t"]))
        out += [o.get_radial_velocity(w["t"]),
                o.get_radial_velocity(w["t"], K=w["K"])]
        out += [o.in_transit(w["t"], r=w["r"],
                             texp=w["texp"] if opts["texp"] else None)]
        out += [xo.LimbDarkLightCurve(w["u1"], w["u2"]).get_light_curve(
            orbit=o, r=w["r"], t=w["t"], **kw)]
        return out
    return dict(V, **E), call, True


def duration(rng, n):
    sh = () if n is None else (n,)
    V = dict(period=coarse(rng, 3, 20, sh), t0=coarse(rng, -3, 3, sh),
             b=coarse(rng, 0, 0.8, sh), duration=coarse(rng, 0.05, 0.3, sh),
             ror=coarse(rng, 0.02, 0.2, sh), r_star=coarse(rng, 0.8, 1.2))
    if rng.random() < 0.3:
        V["r_star"] = np.array(float(rng.integers(1, 25)))
        V["period"] = rng.integers(3, 400, sh).astype(float)
    T = coarse(rng, -10, 10, 9)

    def call(w):
        o = xo.orbits.KeplerianOrbit(**{k: w[k] for k in V})
        return list(o.get_relative_position(w["t"])) + [
            o.a, o.rho_star, o.in_transit(w["t"], r=0.1)]
    return dict(V, t=T), call, True


def ttv(rng, n):
    n = n or 2
    sh = (n,)
    times = rng.random() < 0.5
    V = dict(b=coarse(rng, 0, 0.8, sh), m_star=coarse(rng, 0.8, 1.4),
             r_star=coarse(rng, 0.8, 1.2))
    L = {}
    for j in range(n):
        k = int(rng.integers(3, 6))
        if times:
            L["tt%d" % j] = 3.0 * j + 8 * np.arange(k) + coarse(
                rng, -0.2, 0.2, k)
        else:
            L["tt%d" % j] = coarse(rng, -0.2, 0.2, k)
    if not times:
        V.update(period=coarse(rng, 5, 12, sh), t0=coarse(rng, -3, 3, sh))
    if rng.random() < 0.4:
        for j in range(n):
            k = len(L["tt%d" % j])
            L["ind%d" % j] = np.sort(rng.choice(k + 2, k, replace=False))
            if not times:
                continue
            L["tt%d" % j] = 8.0 * L["ind%d" % j] + coarse(rng, -0.2, 0.2, k)
    T = coarse(rng, -10, 60, 15)

    def call(w):
        kw = {k: w[k] for k in V}
        kw["transit_times" if times else "ttvs"] = [
            w["tt%d" % j] for j in range(n)]
        if "ind0" in L:
            kw["transit_inds"] = [w["ind%d" % j] for j in range(n)]
        o = xo.orbits.TTVOrbit(**kw)
        return list(o.get_relative_position(w["t"])) + [
            o.in_transit(w["t"], r=0.1)] + list(o.all_transit_times)
    return dict(V, t=T, **L), call, True


def simple(rng, n):
    sh = () if n is None else (n,)
    V = dict(period=coarse(rng, 3, 20, sh), t0=coarse(rng, -3, 3, sh),
             b=coarse(rng, 0, 0.8, sh), duration=coarse(rng, 0.1, 0.6, sh),
             ror=coarse(rng, 0.02, 0.2, sh), r_star=coarse(rng, 0.8, 1.2))
    if rng.random() < 0.3:
        V["period"] = np.ceil(V["period"])
        V["t0"] = np.round(V["t0"])
        V["b"] = np.zeros(sh)
        V["r_star"] = np.array(float(rng.integers(1, 25)))
    T = np.concatenate([V["t0"].ravel(), coarse(rng, -10, 10, 9)])
    if rng.random() < 0.3:
        T = np.round(T)
    R = coarse(rng, 0.02, 0.2, sh)

    def call(w):
        o = xo.orbits.SimpleTransitOrbit(**{k: w[k] for k in V})
        return list(o.get_relative_position(w["t"])) + [
            o.in_transit(w["t"], r=w["r"]),
            xo.LimbDarkLightCurve(0.3, 0.2).get_light_curve(
                orbit=o, r=w["r"], t=w["t"])]
    return dict(V, t=T, r=R), call, True


def eclipse(rng, n):
    sh = () if n is None else (n,)
    V = dict(period=coarse(rng, 3, 20, sh), t0=coarse(rng, -3, 3, sh),
             b=coarse(rng, 0, 0.8, sh))
    up, us = np.array([1.0, 0.0]), coarse(rng, 0, 0.4, 2)
    if rng.random() < 0.5:
        up = coarse(rng, 0, 0.4, 2)
    T = np.concatenate([V["t0"].ravel(), (V["t0"] + V["period"] / 2).ravel(),
                        coarse(rng, -10, 10, 9)])
    E = dict(t=T, r=coarse(rng, 0.02, 0.2, sh), up=up, us=us,
             s=coarse(rng, 0, 1) if rng.random() < 0.7 else np.array(1.0))

    def call(w):
        o = xo.orbits.KeplerianOrbit(**{k: w[k] for k in V})
        return [xo.SecondaryEclipseLightCurve(
            w["up"], w["us"], w["s"]).get_light_curve(
                orbit=o, r=w["r"], t=w["t"])]
    return dict(V, **E), call, True


def interp(rng, n):
    d = int(rng.integers(1, 3))
    V = {"g%d" % j: np.cumsum(coarse(rng, 0.5, 2, 4)) for j in range(d)}
    if rng.random() < 0.3:
        V = {"g%d" % j: np.arange(4) * 2.0 for j in range(d)}
    V["v"] = coarse(rng, -3, 3, (4,) * d)
    if rng.random() < 0.3:
        V["v"] = np.round(V["v"])
    if d == 1:
        V["v"] = V["v"].reshape(4)
    V["x"] = coarse(rng, -0.5, 9, (7, d))
    if rng.random() < 0.3:
        V["x"] = np.round(V["x"])
    fill = gen.pick(rng, [None, 0, -1.5, np.nan])

    def call(w):
        pts = [w["g%d" % j] for j in range(d)]
        return [xo.interp.regular_grid_interp(
            pts, w["v"], w["x"], fill_value=fill),
            xo.interp.RegularGridInterpolator(
                pts, w["v"], fill_value=fill).evaluate(w["x"])]
    return V, call, True


def estimator(rng, n):
    N = 60
    x = np.arange(N) * 0.5 + coarse(rng, -0.1, 0.1, N)
    y = coarse(rng, -1, 1, N) + np.round(64 * 5 * np.sin(x)) / 64
    V = dict(x=x, y=y, P=np.array([6.25, 11.5]), t0=np.array([1.0, 2.5]))
    which = int(rng.integers(3))

    def call(w):
        if which == 0:
            return [np.asarray(xo.estimate_semi_amplitude(
                w["P"], w["x"], w["y"]))]
        if which == 1:
            return [np.asarray(xo.estimate_semi_amplitude(
                w["P"], w["x"], w["y"], t0s=w["t0"]))]
        return [np.asarray(xo.estimate_minimum_mass(
            w["P"], w["x"], w["y"], t0s=w["t0"], m_star=1).value)]
    return V, call, False


CALLS = [kepler, kepler, kepler, duration, ttv, ttv, simple, simple, eclipse,
         interp, estimator]


def run_case(rec, rng, i):
    maker = CALLS[i % len(CALLS)]
    rec.event("call:" + maker.__name__)
    n = gen.pick(rng, [None, 1, 2, 3], [0.25, 0.3, 0.25, 0.2])
    V, call, tensors = maker(rng, n)
    rec.ctx["config"] = dict(call=maker.__name__, n=n, values=V)
    with rec.product("plain"):
        base = call({k: np.array(v, dtype=float) if not k.startswith("ind")
                     else np.array(v) for k, v in V.items()})
        if tensors:
            base = evaluate(base)
    for _ in range(3):
        F = Forms(rec, rng, tensors)
        with rec.product("other form"):
            w = {}
            rec.ctx["forms"] = F.log
            for k, v in V.items():
                if k.startswith("ind"):
                    # labels are whole numbers
                    w[k] = gen.pick(rng, [
                        np.array(v), v.tolist(), v.astype(np.int32),
                        tuple(v.tolist())])
                else:
                    w[k] = F(k, v)
            got = call(w)
            if tensors:
                got = evaluate(got, F.givens)
        for j, (a, b) in enumerate(zip(got, base)):
            a, b = np.asarray(a), np.asarray(b)
            if not rec.check("shape", a.size == b.size, got=a.shape,
                             want=b.shape, output=j):
                continue
            a, b = a.ravel(), b.ravel()
            if b.dtype.kind in "iub":
                rec.check("equal", np.array_equal(a, b), output=j, got=a,
                          want=b)
                continue
            nan = np.isnan(b)
            rec.check("equal", np.array_equal(np.isnan(a), nan), output=j)
            scale = np.max(np.abs(b[~nan]), initial=1e-12)
            rec.close("equal", np.where(nan, 0, a), np.where(nan, 0, b),
                      1e-11 * scale, output=j)
        rec.seen(maker.__name__, sorted(F.log.items()), *V.values(),
                 nontrivial=set(F.log.values()) != {"same"},
                 sample=dict(call=maker.__name__, forms=F.log))
