"""Bounded parameters stay in their support with the documented density

RULE: a case is one model with an angle, a unit disk, a pair of limb darkening
coefficients or an impact parameter (shapes, radius ratios and starting points
vary); an execution evaluates the joint density and the parameter at an
unconstrained point, as a sampler does, and derives the density implied for the
parameter itself; non-trivial when the point is not the starting point.
"""

import numpy as np
import pymc as pm

from vmon import gen
from vmon.env import pt, xo
from vmon.prior import Density, ks, logit_points

CASES = {"quick": 360, "thorough": 6000}
MIN = {"support": 1000, "density": 300, "angle-isotropic": 100,
       "angle-origin": 40, "angle-strength": 25,
       "angle-value": 150, "gradient": 200, "gradient-finite": 500,
       "draws": 60, "draws-support": 60, "kind:angle": 20, "kind:disk": 20,
       "kind:limb": 20, "kind:impact": 20, "start": 100, "limb-physical": 200}
ASSUMPTIONS = [
    "the density is compared where the unconstrained coordinates are within "
    "+-6, and the support is judged up to +-200",
]
D = xo.distributions


def shape_of(rng):
    return gen.pick(rng, [None, None, 1, 2, (2,), (2, 2)])


def sized(shape):
    return () if shape is None else (shape,) if isinstance(
        shape, int) else tuple(shape)


def run_case(rec, rng, i):
    kind = ["angle", "disk", "limb", "impact"][i % 4]
    rec.event("kind:" + kind)
    {"angle": angle, "disk": disk, "limb": limb, "impact": impact}[kind](
        rec, rng)


def points(rec, rng, d, judge, npts=6):
    for q in range(npts):
        wide = q >= npts - 2
        z = logit_points(rng, d.nz, wide)
        rec.ctx["z"] = z
        with rec.product("evaluate"):
            lp, out = d(z)
        judge(z, lp, out, wide)
        if not wide:
            with rec.product("gradient"):
                d.grad_check(rec, rng, z, "gradient")
        rec.seen(repr(rec.ctx.get("config")), z,
                 sample=dict(config=rec.ctx.get("config"), z=z))


def angle(rec, rng):
    shape = shape_of(rng)
    s = sized(shape)
    reg = gen.pick(rng, ["default", None, 1.0, 0.0, 25.0])
    kw = {} if shape is None else dict(shape=shape)
    if reg != "default":
        kw["regularization"] = reg
    init = rng.uniform(-np.pi, np.pi, s)
    if rng.random() < 0.5:
        kw[gen.pick(rng, ["initval", "testval"])] = (
            init if s else float(init))
    else:
        init = np.zeros(s)
    rec.ctx["config"] = dict(kind="angle", kw=kw)
    with rec.product("build"):
        with pm.Model() as m:
            th = D.angle("theta", **kw)
        d = Density(m, [th])
    with rec.product("evaluate"):
        lp0, out = d(d.start)
    rec.close("start", np.angle(np.exp(1j * (out[0] - init))), 0 * init,
              1e-12)
    n = int(np.prod(s))
    if not rec.check("angle-dimension", d.nz == 2 * n, got=d.nz, want=2 * n):
        return

    def judge(z, lp, out, wide):
        th = out[0]
        rec.check("support", th.shape == s and np.all(
            np.abs(th) <= np.pi * (1 + 1e-15)), n=max(n, 1), got=th)
        if wide:
            return
        # turning one pair of coordinates turns that angle and nothing else
        v = z.reshape(2, n)
        k = int(rng.integers(n))
        turn = rng.uniform(-np.pi, np.pi)
        w = v.copy()
        w[0, k] = np.cos(turn) * v[0, k] + np.sin(turn) * v[1, k]
        w[1, k] = -np.sin(turn) * v[0, k] + np.cos(turn) * v[1, k]
        with rec.product("evaluate"):
            lp2, out2 = d(w.ravel())
        rec.close("angle-isotropic", lp2, lp, 1e-10 * (1 + abs(lp)),
                  turned=turn)
        value = 10.0 if reg == "default" else reg
        if value:
            # the regularization empties the neighbourhood of the origin
            w2 = v / np.sqrt(v[0] ** 2 + v[1] ** 2)
            w3 = w2.copy()
            w3[:, k] *= 1e-4
            with rec.product("evaluate"):
                l2, l3 = d(w2.ravel())[0], d(w3.ravel())[0]
            rec.check("angle-origin", l3 < l2 - 5 * value, got=l3, at=l2)
        diff = np.angle(np.exp(1j * (out2[0].ravel() - th.ravel())))
        want = np.zeros(n)
        want[k] = np.angle(np.exp(1j * turn))
        rec.close("angle-value", np.angle(np.exp(1j * (diff - want))),
                  0 * want, 1e-9)

    points(rec, rng, d, judge)
    # the parameter sets how strongly: twice of it moves twice as much mass
    with rec.product("build"):
        def other(r):
            k2 = {q: v for q, v in kw.items() if q != "regularization"}
            if r != "default":
                k2["regularization"] = r
            with pm.Model() as m2:
                return Density(m2, [D.angle("theta", **k2)])
        rho = float(rng.uniform(0.05, 0.9))
        w2 = rng.normal(size=(2, n))
        w2 /= np.sqrt(w2[0] ** 2 + w2[1] ** 2)

        def depth(den):
            return den((w2 * rho).ravel())[0] - den(w2.ravel())[0]
        with rec.product("evaluate"):
            free = depth(other(None))
            unit = depth(other("default")) - free
            mine = depth(d) - free
        value = 10.0 if reg == "default" else (reg or 0.0)
        rec.close("angle-strength", mine, unit * value / 10.0,
                  1e-9 * (1 + abs(unit)))
    with rec.product("draw"):
        x = pm.draw(th, draws=600, random_seed=int(rng.integers(2**31)))
    rec.check("draws-support", np.all(np.abs(x) <= np.pi * (1 + 1e-15)))
    ks(rec, "draws", x.reshape(600, -1)[:, 0],
       lambda q: (q + np.pi) / (2 * np.pi))


def disk(rec, rng):
    shape = shape_of(rng)
    s = sized(shape)
    kw = {} if shape is None else dict(shape=shape)
    r = np.sqrt(rng.uniform(0, 0.98, s))
    p = rng.uniform(-np.pi, np.pi, s)
    init = np.stack([r * np.cos(p), r * np.sin(p)])
    if rng.random() < 0.5:
        kw[gen.pick(rng, ["initval", "testval"])] = (
            init if s else init.tolist())
    else:
        init = 0 * init
    rec.ctx["config"] = dict(kind="disk", kw=kw)
    with rec.product("build"):
        with pm.Model() as m:
            x, y = D.unit_disk("x", "y", **kw)
        d = Density(m, [x, y])
    n = max(1, int(np.prod(s)))
    with rec.product("evaluate"):
        lp0, out = d(d.start)
    rec.close("start", np.stack(out), init, 1e-10)

    def judge(z, lp, out, wide):
        r2 = out[0] ** 2 + out[1] ** 2
        rec.check("support", out[0].shape == s and np.all(
            r2 <= 1 + 4e-16) and np.all(np.isfinite(out)), n=n, got=out)
        if not wide:
            with rec.product("jacobian"):
                v = d.implied(z)
            rec.close("density", v, level[0], 1e-8)

    with rec.product("jacobian"):
        # uniform, up to the constant that the sampler does not need
        level = [d.implied(rng.normal(size=d.nz) * 0.1)]
    points(rec, rng, d, judge)
    with rec.product("draw"):
        a, b = pm.draw([x, y], draws=300,
                       random_seed=int(rng.integers(2**31)))
    rec.check("draws-support", np.all(a**2 + b**2 <= 1 + 4e-16))


def limb(rec, rng):
    shape = shape_of(rng)
    s = sized(shape)
    kw = {} if shape is None else dict(shape=shape)
    q1, q2 = rng.uniform(0.02, 0.98, s), rng.uniform(0.02, 0.98, s)
    init = np.stack([2 * np.sqrt(q1) * q2, np.sqrt(q1) * (1 - 2 * q2)])
    if rng.random() < 0.5:
        kw[gen.pick(rng, ["initval", "testval"])] = (
            init if s else init.tolist())
    else:
        init = np.stack([np.full(s, np.sqrt(0.5)), np.zeros(s)])
    rec.ctx["config"] = dict(kind="limb", kw=kw)
    with rec.product("build"):
        with pm.Model() as m:
            u = D.quad_limb_dark("u", **kw)
        d = Density(m, [u])
    n = max(1, int(np.prod(s)))
    with rec.product("evaluate"):
        lp0, out = d(d.start)
    rec.close("start", out[0], init, 1e-10)
    eps = 4e-16

    def physical(u1, u2):
        # positive everywhere, and brightest at the centre
        mu = np.linspace(0, 1, 21).reshape((-1,) + (1,) * np.ndim(u1))
        prof = 1 - u1 * (1 - mu) - u2 * (1 - mu) ** 2
        return np.all(prof > -1e-12) and np.all(
            np.diff(prof, axis=0) > -1e-12)

    def judge(z, lp, out, wide):
        u1, u2 = out[0][0], out[0][1]
        rec.check("support", out[0].shape == (2,) + s and np.all(
            u1 >= 0) and np.all(u1 + u2 <= 1 + eps) and np.all(
            u1 + 2 * u2 >= -eps), n=n, got=out[0])
        rec.check("limb-physical", physical(u1, u2), n=n, got=out[0])
        if not wide:
            with rec.product("jacobian"):
                v = d.implied(z)
            # the triangle has unit area
            rec.close("density", v, 0.0, 1e-8)

    points(rec, rng, d, judge)
    with rec.product("draw"):
        x = pm.draw(u, draws=600, random_seed=int(rng.integers(2**31)))
    rec.check("draws-support", np.all(x[:, 0] >= 0) and np.all(
        x[:, 0] + x[:, 1] <= 1 + eps) and np.all(
        x[:, 0] + 2 * x[:, 1] >= -eps))
    x = x.reshape(600, 2, -1)[:, :, 0]
    # marginals of the uniform density on the triangle (0,0) (2,-1) (0,1)
    ks(rec, "draws", x[:, 0] + x[:, 1], lambda q: q**2)
    ks(rec, "draws", x[:, 0], lambda q: 1 - (1 - q / 2) ** 2)


def impact(rec, rng):
    form = gen.pick(rng, ["float", "array", "list", "tensor", "rv", "rv-vec"])
    n = int(rng.integers(1, 4))
    ror = rng.uniform(0.005, 1.4, n)
    kw = {}
    s = (n,)
    if form == "float":
        s = ()
        ror = ror[0]
        if rng.random() < 0.5:
            sh = gen.pick(rng, [2, (3,), (2, 2)])
            kw["shape"] = sh
            s = sized(sh)
    rv = None
    if form == "rv":
        s = ()
    full = None
    init = rng.uniform(0.01, 0.99, s)
    if rng.random() < 0.5:
        kw[gen.pick(rng, ["initval", "testval"])] = (
            init if s else float(init))
    else:
        init = np.full(s, 0.5)
    rec.ctx["config"] = dict(kind="impact", form=form, ror=ror, kw=kw)
    with rec.product("build"):
        with pm.Model() as m:
            if form == "rv":
                r = rv = pm.Uniform("r", 0.01, 1.5)
            elif form == "rv-vec":
                r = rv = pm.Uniform("r", 0.01, 1.5, shape=n)
            else:
                r = {"float": lambda: float(ror), "array": lambda: ror,
                     "list": lambda: ror.tolist(),
                     "tensor": lambda: pt.as_tensor(ror)}[form]()
            b = D.impact_parameter("b", r, **kw)
        d = Density(m, [b] + ([rv] if rv is not None else []))
    m_ = max(1, int(np.prod(s)))
    with rec.product("evaluate"):
        lp0, out = d(d.start)
    rec.close("start", out[0], init, 1e-10)

    def judge(z, lp, out, wide):
        k = out[1] if rv is not None else ror
        rec.check("support", out[0].shape == s and np.all(
            out[0] >= 0) and np.all(out[0] <= (1 + k) * (1 + 4e-16)), n=m_,
            got=out[0], ror=k)
        if not wide:
            with rec.product("jacobian"):
                v = d.implied(z)
            want = -np.sum(np.log(1 + k) + np.zeros(s))
            if rv is not None:
                want = want - np.size(k) * np.log(1.49)
            rec.close("density", v, want, 1e-8)

    points(rec, rng, d, judge)
    with rec.product("draw"):
        if rv is None:
            x = pm.draw(b, draws=600, random_seed=int(rng.integers(2**31)))
            k = ror
        else:
            x, k = pm.draw([b, rv], draws=600,
                           random_seed=int(rng.integers(2**31)))
    rec.check("draws-support", np.all(x >= 0) and np.all(
        x <= (1 + k) * (1 + 4e-16)))
    ks(rec, "draws", (x / (1 + k)).reshape(600, -1)[:, -1], lambda q: q)
