"""Results depend on the arguments alone, not on what was computed before

RULE: a case is one random history of calls over shared orbits, light curves,
parameters and input arrays, inside and outside of a model; an execution is one
call of the history, which is repeated later, and also on newly made objects
with nothing else done in between, and has to return the same bits; non-trivial
when other calls came in between.
"""

import numpy as np
import pymc as pm

from vmon import gen
from vmon.env import pt, pytensor, xo
from vmon.lib import PLAIN

CASES = {"quick": 72, "thorough": 3000}
MIN = {"repeat": 500, "fresh": 500, "inputs": 1000, "globals": 300,
       "model": 50, "updated": 100, "op:lc": 30, "op:rv": 30,
       "op:estimator": 20, "op:in_transit": 20, "op:eclipse": 10,
       "op:attributes": 20, "op:prior": 10}
ASSUMPTIONS = ["the installed PyTensor is deterministic"]


class World:
    """Objects made on demand and shared by the calls of a history"""

    def __init__(self, V, data, share):
        self.V, self.data = V, data
        self.objs = {}
        self.share = share
        self.params = {}

    def p(self, name):
        """a parameter: a variable whose value can be changed"""
        if name not in self.params:
            self.params[name] = pytensor.shared(
                np.array(self.V[name], dtype=float), name=name)
        return self.params[name]

    def set(self, V):
        self.V = V
        for k, v in self.params.items():
            v.set_value(np.array(V[k], dtype=float))

    def __getitem__(self, name):
        if name not in self.objs:
            self.objs[name] = MAKE[name](self)
        return self.objs[name]


def shape(w, k):
    return pt.specify_shape(w.p(k), np.shape(w.V[k])) if np.ndim(
        w.V[k]) else w.p(k)


MAKE = dict(
    kep=lambda w: xo.orbits.KeplerianOrbit(
        period=shape(w, "P"), t0=shape(w, "t0"), b=shape(w, "b"),
        ecc=shape(w, "e"), omega=shape(w, "w"), Omega=shape(w, "Om"),
        m_planet=shape(w, "m"), m_star=w.p("ms"), r_star=w.p("rs")),
    one=lambda w: xo.orbits.KeplerianOrbit(
        period=w.p("P1"), t0=w.p("t01"), incl=w.p("i1"), rho_star=w.p("rho")),
    lists=lambda w: xo.orbits.KeplerianOrbit(
        period=w.data["Plist"], t0=w.data["t0list"], b=w.data["barr"],
        m_star=1.1, r_star=0.9),
    dur=lambda w: xo.orbits.KeplerianOrbit(
        period=shape(w, "P"), t0=shape(w, "t0"), b=shape(w, "b"),
        duration=shape(w, "dur"), r_star=w.p("rs"), ror=0.05),
    ttv=lambda w: xo.orbits.TTVOrbit(
        period=shape(w, "P"), t0=shape(w, "t0"), b=shape(w, "b"),
        ttvs=w.data["ttvs"], m_star=w.p("ms"), r_star=w.p("rs")),
    ttt=lambda w: xo.orbits.TTVOrbit(
        transit_times=w.data["tt"], b=shape(w, "b"), m_star=w.p("ms"),
        r_star=w.p("rs")),
    sim=lambda w: xo.orbits.SimpleTransitOrbit(
        period=shape(w, "P"), t0=shape(w, "t0"), b=shape(w, "b"),
        duration=shape(w, "dur"), r_star=w.p("rs"), ror=0.05),
    star=lambda w: xo.LimbDarkLightCurve(w.p("u1"), w.p("u2")),
    star2=lambda w: xo.LimbDarkLightCurve(0.4, 0.1),
    ecl=lambda w: xo.SecondaryEclipseLightCurve(
        [w.p("u1"), w.p("u2")], [0.1, 0.2], w.p("s")),
    ilc=lambda w: xo.InterpolatedLightCurve(w["star2"], 40, num_planets=1),
    grid=lambda w: xo.interp.RegularGridInterpolator(
        [w.data["gx"]], w.data["gy"], fill_value=-1.0),
)


def draw_values(rng, n):
    P = rng.uniform(4, 30, n)
    return dict(
        P=P, t0=rng.uniform(-3, 3, n), b=rng.uniform(0, 0.8, n),
        e=rng.uniform(0, 0.6, n), w=rng.uniform(-3, 3, n),
        Om=rng.uniform(-3, 3, n), m=rng.uniform(0, 0.01, n),
        dur=rng.uniform(0.05, 0.2, n), ms=rng.uniform(0.8, 1.5),
        rs=rng.uniform(0.8, 1.3), P1=rng.uniform(3, 20),
        t01=rng.uniform(-3, 3), i1=np.pi / 2 - rng.uniform(0, 0.02),
        rho=rng.uniform(0.7, 3), u1=rng.uniform(0, 0.5),
        u2=rng.uniform(0, 0.4), s=rng.uniform(0, 1),
    )


def draw_data(rng, n):
    tt = []
    for _ in range(n):
        p, k = rng.uniform(5, 20), int(rng.integers(3, 7))
        tt.append(rng.uniform(0, 3) + p * np.arange(k)
                  + 0.02 * rng.normal(size=k))
    t = np.sort(rng.uniform(-20, 40, 25))
    f = rng.normal(size=120)
    x = (np.arange(120) + 0.3 * rng.uniform(-1, 1, 120)) * 0.5
    return dict(
        t=t, t2=t[:10] + 1.0, tlist=[float(q) for q in t[:7]],
        r=rng.uniform(0.02, 0.2, n), r1=0.1,
        texp=rng.uniform(0.01, 0.08, 25),
        ttvs=[0.02 * rng.normal(size=6) for _ in range(n)], tt=tt,
        Plist=[float(q) for q in rng.uniform(4, 20, n)],
        t0list=[float(q) for q in rng.uniform(-1, 1, n)],
        barr=rng.uniform(0, 0.7, n),
        gx=np.sort(rng.uniform(0, 10, 8)), gy=rng.normal(size=8),
        coords=rng.uniform(-1, 11, (9, 1)),
        x=x, y=f + 5 * np.sin(2 * np.pi * x / 5.3), ye=np.full(120, 0.9),
        K=rng.uniform(1, 9, n), r2=rng.uniform(0.1, 0.6, 2),
    )


ORB = ["kep", "one", "lists", "dur", "ttv", "ttt", "sim"]


def positions(rng):
    o = gen.pick(rng, ORB)
    ld = bool(rng.random() < 0.3) and o != "sim"
    what = gen.pick(rng, ["planet", "star", "relative"])
    tk = gen.pick(rng, ["t", "t2", "tlist"])
    return "position", lambda w: list(getattr(
        w[o], "get_%s_position" % what)(w.data[tk], light_delay=ld))


def velocities(rng):
    o = gen.pick(rng, ["kep", "one", "lists", "dur"])
    what = gen.pick(rng, ["planet", "star", "relative"])
    kind = gen.pick(rng, ["velocity", "velocity", "acceleration"])
    return "velocity", lambda w: list(getattr(
        w[o], "get_%s_%s" % (what, kind))(w.data["t"]))


def rv(rng):
    o = gen.pick(rng, ["kep", "lists", "dur", "ttv"])
    k = rng.random() < 0.5
    return "rv", lambda w: [w[o].get_radial_velocity(
        w.data["t"], K=w.data["K"] if k else None)]


def in_transit(rng):
    o = gen.pick(rng, ORB)
    te = gen.pick(rng, [None, 0.05])

    def run(w):
        r = w.data["r1"] if o == "one" else w.data["r"]
        return [w[o].in_transit(w.data["t"], r=r, texp=te)]
    return "in_transit", run


def lc(rng):
    o = gen.pick(rng, ORB)
    s = gen.pick(rng, ["star", "star", "star2"])
    kw = {}
    te = gen.pick(rng, [None, "scalar", "vector"])
    if te == "scalar":
        kw.update(texp=0.04, oversample=3, order=int(rng.integers(3)))
    if rng.random() < 0.5:
        kw["use_in_transit"] = bool(rng.random() < 0.5)
    if rng.random() < 0.2 and o not in ("ttv", "ttt", "sim"):
        kw.update(light_delay=True, use_in_transit=False)

    def run(w):
        k = dict(kw)
        if te == "vector":
            k["texp"] = w.data["texp"]
        r = w.data["r1"] if o == "one" else w.data["r"]
        return [w[s].get_light_curve(orbit=w[o], r=r, t=w.data["t"], **k)]
    return "lc", run


def eclipse(rng):
    o = gen.pick(rng, ["kep", "one", "lists"])

    def run(w):
        r = w.data["r1"] if o == "one" else w.data["r"]
        return [w["ecl"].get_light_curve(orbit=w[o], r=r, t=w.data["t"])]
    return "eclipse", run


def interp(rng):
    if rng.random() < 0.5:
        return "interp", lambda w: [w["grid"].evaluate(w.data["coords"])]
    return "interp", lambda w: [w["ilc"].get_light_curve(
        orbit=w["one"], r=w.data["r1"], t=w.data["t"])]


def estimator(rng):
    def flat(res):
        out = []
        for q in res["peaks"]:
            for k in sorted(q):
                if isinstance(q[k], (float, int, np.number)):
                    out.append(float(q[k]))
        return np.array(out)

    k = int(rng.integers(6))
    return "estimator", [
        lambda w: [flat(xo.lomb_scargle_estimator(
            w.data["x"], w.data["y"], yerr=w.data["ye"], min_period=2,
            max_period=20, samples_per_peak=5))],
        lambda w: [flat(xo.autocorr_estimator(
            w.data["x"], w.data["y"], min_period=1, max_period=30))],
        lambda w: [flat(xo.bls_estimator(
            w.data["x"], w.data["y"], yerr=w.data["ye"], duration=0.3,
            min_period=3, max_period=15))],
        lambda w: [np.asarray(xo.estimate_semi_amplitude(
            w.data["Plist"], w.data["x"], w.data["y"],
            yerr=w.data["ye"]))],
        lambda w: [np.asarray(xo.estimate_semi_amplitude(
            w.data["Plist"], w.data["x"], w.data["y"],
            t0s=w.data["t0list"]))],
        lambda w: [xo.estimate_minimum_mass(
            w.data["Plist"], w.data["x"], w.data["y"], m_star=1.2).value],
    ][k]


def attributes(rng):
    """everything an orbit or a light curve offers to be read"""
    o = gen.pick(rng, ORB + ["star", "star2"])

    def run(w):
        d = dict(vars(w[o]))
        d.pop("jacobians", None)
        jac = getattr(w[o], "jacobians", {})
        out = []
        for a in sorted(jac):
            for b in sorted(jac[a]):
                out.append(pt.as_tensor(jac[a][b]))
        for k in sorted(d):
            q = d[k]
            if k.startswith("_"):
                continue
            for x in q if isinstance(q, (list, tuple)) else [q]:
                if isinstance(x, (pt.TensorVariable, float, np.ndarray)):
                    out.append(pt.as_tensor(x))
        return out
    return "attributes", run


def prior(rng):
    """a distribution in a model of its own"""
    D = xo.distributions
    k = int(rng.integers(9))
    seed = int(rng.integers(2**30))
    init = bool(rng.random() < 0.4)
    make = [
        lambda w: D.angle("x", shape=2, **(
            dict(initval=w.data["r2"]) if init else {})),
        lambda w: D.unit_disk("x", "y", **(
            dict(initval=w.data["r2"]) if init else {}))[1],
        lambda w: D.quad_limb_dark("x", **(
            dict(initval=w.data["r2"]) if init else {})),
        lambda w: D.impact_parameter("x", w.data["r"]),
        lambda w: D.impact_parameter("x", 0.1, shape=(3,)),
        lambda w: D.eccentricity.kipping13("x", long=init),
        lambda w: D.eccentricity.kipping13("x", fixed=False, upper=0.8),
        lambda w: D.eccentricity.vaneylen19("x", multi=init),
        lambda w: D.eccentricity.vaneylen19("x", fixed=False),
    ][k]

    def run(w):
        with pm.Model() as m:
            x = make(w)
            text = "".join(xo.citations.get_citations_for_model()) if (
                k in (2, 5, 6, 7, 8)) else ""
        ip = m.initial_point(random_seed=2)
        out = [np.frombuffer(text.encode(), dtype=np.uint8)]
        out += [np.asarray(ip[v]) for v in sorted(ip)]
        out.append(np.asarray(m.compile_logp(mode=PLAIN)(ip)))
        out.append(np.asarray(m.compile_dlogp(mode=PLAIN)(ip)))
        out.append(pm.draw(x, 3, random_seed=seed, mode=PLAIN))
        return out
    return "prior", run


OPS = [positions, velocities, rv, in_transit, lc, lc, lc, eclipse, interp,
       estimator, attributes, attributes, prior]


def evaluate(outs):
    if any(isinstance(q, pt.TensorVariable) for q in outs):
        f = pytensor.function([], list(outs), mode=PLAIN)
        return [np.array(q) for q in f()]
    return [np.asarray(q) for q in outs]


def same(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and x.dtype == y.dtype
        and x.tobytes() == y.tobytes() for x, y in zip(a, b))


def flatten(d):
    out = []
    for k in sorted(d):
        v = d[k]
        out += [np.array(q) for q in v] if isinstance(v, list) else [
            np.array(v)]
    return out


def clone(d):
    return {k: [np.array(q) if isinstance(q, np.ndarray) else q for q in v]
            if isinstance(v, list) else
            (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in d.items()}


def state():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2:], str(np.geterr()),
            str(np.get_printoptions()), pytensor.config.floatX,
            pytensor.config.compute_test_value,
            pytensor.config.mode, pytensor.config.cxx,
            pytensor.config.warn_float64, pytensor.config.cast_policy)


def run_case(rec, rng, i):
    n = int(rng.integers(1, 4))
    data = draw_data(rng, n)
    before = flatten(clone(data))
    settings = [draw_values(rng, n) for _ in range(2)]
    world = World(settings[0], data, True)
    log, done = [], []
    rec.ctx["history"] = log
    cur = 0
    np.random.seed(int(rng.integers(2**31)))
    with pm.Model() as model:
        x = pm.Normal("x")
    held = (dict(model.named_vars), list(model.potentials),
            list(model.deterministics), list(model.basic_RVs))

    def run(w, op, name, inside):
        # a model inside of another one would be its child
        inside = inside and name != "prior"
        s0 = state()
        with rec.product(name):
            if inside:
                with model:
                    res = evaluate(op(w))
            else:
                res = evaluate(op(w))
        rec.check("globals", state() == s0, call=name)
        if inside:
            now = (dict(model.named_vars), list(model.potentials),
                   list(model.deterministics), list(model.basic_RVs))
            rec.check("model", now == held, call=name)
        return res

    for step in range(12):
        if rng.random() < 0.25:
            cur = 1 - cur
            world.set(settings[cur])
            log.append("set %d" % cur)
            rec.event("updated")
        name, op = gen.pick(rng, OPS)(rng)
        inside = rng.random() < 0.25
        rec.event("op:" + name)
        log.append(name)
        res = run(world, op, name, inside)
        done.append((op, name, cur, res))
        if rng.random() < 0.5:
            op, name, c, old = done[int(rng.integers(len(done)))]
            world.set(settings[c])
            cur = c
            log.append("again " + name)
            res = run(world, op, name, rng.random() < 0.2)
            rec.check("repeat", same(res, old), call=name, first=old[0].ravel(
                )[:5], now=res[0].ravel()[:5])
    for k in rng.permutation(len(done)):
        op, name, c, old = done[k]
        world.set(settings[c])
        res = run(world, op, name, False)
        rec.check("repeat", same(res, old), call=name)
        new = World(settings[c], clone(data), False)
        res = run(new, op, name, False)
        rec.check("fresh", same(res, old), call=name,
                  got=res[0].ravel()[:5], want=old[0].ravel()[:5])
        # separate runs of numpy arrays
        rec.seen(i, int(k), name, *old, nontrivial=k > 0,
                 sample=dict(history=log[:20]))
    after = flatten(data)
    rec.check("inputs", len(after) == len(before) and all(
        a.tobytes() == b.tobytes() for a, b in zip(after, before)),
        n=len(before))
