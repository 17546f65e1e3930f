"""Interpolated light curves are the cubic through the light curve they cache

RULE: a case is one base light curve (limb darkened, a secondary eclipse or an
object of the user's), one orbit with one or more companions and one number of
grid points; an execution evaluates the interpolated light curve at any times
and compares it with the four point Lagrange polynomial of the base model on
the nodes of the grid in phase; non-trivial when the flux is not constant.
"""

import numpy as np

from vmon import gen, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import KO, fn

CASES = {"quick": 260, "thorough": 6000}
MIN = {"lagrange": 3000, "node": 1500, "periodic": 2000, "users-base": 1000,
       "planets:1": 20, "planets:many": 20, "options": 20, "accurate": 500,
       "counted": 10, "times:0": 4, "times:2": 10}
ASSUMPTIONS = ["the grid covers one period from the reference transit in "
               "num_phase + 1 intervals"]


def lagrange(y, s):
    """the cubic through (-1, 0, 1, 2) at s; y has four rows"""
    return (
        -y[0] * s * (s - 1) * (s - 2) / 6
        + y[1] * (s + 1) * (s - 1) * (s - 2) / 2
        - y[2] * (s + 1) * s * (s - 2) / 2
        + y[3] * (s + 1) * s * (s - 1) / 6
    )


class Wave:
    """A base light curve of the user: harmonics of each period"""

    def __init__(self, amp, ph):
        self.amp, self.ph = amp, ph

    def get_light_curve(self, orbit=None, r=None, t=None, **kwargs):
        t = pt.as_tensor_variable(t)
        P = pt.atleast_1d(orbit.period)
        x = 2 * np.pi * pt.shape_padright(t) / P
        return pt.stack([r * pt.sin((k + 1) * x + self.ph[k]) * self.amp[k]
                         for k in range(len(self.amp))]).sum(axis=0)


def run_case(rec, rng, i):
    n = gen.pick(rng, [None, 1, 2, 3])
    N = int(gen.pick(rng, [3, 10, 57, 200, 999, 2000]))
    kind = gen.pick(rng, ["limb", "limb", "eclipse", "wave"])
    sh = () if n is None else (n,)
    P = np.exp(rng.uniform(np.log(1.0), np.log(60), sh))
    st = () if rng.random() < 0.2 else sh  # one epoch for all
    t0 = rng.uniform(-5, 5, st) + gen.pick(rng, [0.0, 100.0, -30.0])
    e = rng.uniform(0, 0.5, sh)
    w = rng.uniform(-3, 3, sh)
    b = rng.uniform(0, 0.8, sh)
    circ = rng.random() < 0.5
    k = rng.uniform(0.02, 0.25, sh)
    U = ref_lc.kipping(rng)
    V = ref_lc.kipping(rng)
    sbr = float(rng.uniform(0, 0.9))
    opts = {}
    if kind != "wave" and rng.random() < 0.35:
        opts = dict(texp=float(rng.uniform(0.005, 0.08)),
                    oversample=int(rng.integers(2, 7)),
                    order=int(rng.integers(3)))
        rec.event("options")
    if kind != "wave" and rng.random() < 0.2:
        opts["light_delay"] = True
        rec.event("options")
    if kind == "limb" and rng.random() < 0.4:
        opts["use_in_transit"] = bool(rng.random() < 0.5)
        if opts["use_in_transit"]:
            opts.pop("light_delay", None)
    amp, ph = rng.normal(size=3), rng.uniform(-3, 3, 3)
    rec.ctx["config"] = dict(n=n, N=N, kind=kind, P=P, t0=t0, e=e, w=w, b=b,
                             circ=circ, k=k, U=U, opts=opts)
    npl = 1 if n is None else n
    rec.event("planets:" + ("1" if npl == 1 else "many"))

    def var(name, s):
        return pt.TensorType("float64", (None,) * len(s))(name)

    # times of any shape
    nd = gen.pick(rng, [1, 2, 0], [0.7, 0.2, 0.1])
    rec.event("times:%d" % nd)
    t, p, t0v, rv = var("t", (1,) * nd), var("p", sh), var("t0", st), var("r", sh)
    with rec.product("build"):
        kw = dict(period=p, t0=t0v, m_star=1.0, r_star=1.0, b=b)
        if not circ:
            kw.update(ecc=e, omega=w)
        o = KO(**kw)
        if kind == "limb":
            base = xo.LimbDarkLightCurve(*U)
        elif kind == "eclipse":
            base = xo.SecondaryEclipseLightCurve(U, V, sbr)
        else:
            base = Wave(amp, ph)
        if rng.random() < 0.25:
            # the number of planets is that of the periods to start with
            rec.event("counted")
            ilc = xo.InterpolatedLightCurve(base, N)
            rec.expect_raise(
                "count", ValueError, lambda: ilc.get_light_curve(
                    orbit=KO(**dict(kw, period=2.0 * p)), r=rv, t=t))
            p.tag.test_value = P
        else:
            ilc = xo.InterpolatedLightCurve(base, N, num_planets=npl)
        y = ilc.get_light_curve(orbit=o, r=rv, t=t, **opts)
        tb = pt.dvector("tb")
        direct = base.get_light_curve(orbit=o, r=rv, t=tb, **opts)
    with rec.product("compile"):
        fi = fn(rng, [t, p, t0v, rv], y)
        fb = fn(rng, [tb, p, t0v, rv], direct, mode="plain")

    for _ in range(3):
        Pq = P * rng.uniform(0.9, 1.1)
        t0q = t0 + rng.normal()
        M = int(rng.integers(1, 60)) if nd else 1
        if nd == 2:
            M = M // 3 * 3 + 3
        tsh = {0: (), 1: (M,), 2: (3, M // 3)}[nd]
        Pj = np.reshape(Pq + np.zeros(npl), npl)
        Tj = np.reshape(t0q + np.zeros(npl), npl)
        dx = Pj / (N + 1)
        tv = np.empty(M)
        for q in range(M):
            j = int(rng.integers(npl))
            s = rng.random()
            if s < 0.5:
                tv[q] = Tj[j] + rng.uniform(-0.1, 0.1) * Pj[j] ** 0.4
            elif s < 0.7:
                tv[q] = Tj[j] + dx[j] * rng.integers(-3, N + 4)
            else:
                tv[q] = Tj[j] + Pj[j] * rng.uniform(-3, 3)
            if s < 0.8:
                tv[q] += Pj[j] * rng.integers(-3, 4)
        rec.ctx["t"] = tv
        with rec.product("evaluate"):
            got = fi(tv.reshape(tsh), Pq, t0q, k)
        if not rec.check("shape", got.shape == tsh + (npl,), got=got.shape,
                         want=tsh + (npl,)):
            return
        got = got.reshape(M, npl)
        for j in range(npl):
            x = (tv - Tj[j]) / dx[j]
            x = x - (N + 1) * np.floor(x / (N + 1))
            c = np.floor(x)
            nodes = Tj[j] + dx[j] * (c[None, :] + np.arange(-1, 3)[:, None])
            with rec.product("base"):
                def at(z):
                    return fb(np.ravel(z), Pq, t0q, k)[:, j].reshape(4, M)
                Y = at(nodes)
                d = 4e-15 * (np.abs(tv).max() + np.abs(Tj[j]) + Pj[j]) + (
                    1e-9 * Pj[j] / 6)
                slack = np.max(np.abs([at(nodes + z * d) - Y for z in
                                       (-1, -0.3, 0.3, 1)]), axis=(0, 1))
            want = lagrange(Y, x - c)
            ex = 8e-16 * (np.abs(tv) + np.abs(Tj[j]) + Pj[j]) / dx[j]
            span = np.max(Y, axis=0) - np.min(Y, axis=0)
            big = np.abs(Y).max()
            tol = 1e-12 * (1 + big) + 6 * slack + 10 * (ex + 1e-14 * N) * span
            # next to a node the cubic of the other side is as good
            near = np.minimum(x - c, 1 - (x - c)) < 10 * ex + 1e-12 * N
            # what the outer nodes of the two neighbouring cells can matter
            tol = tol + np.where(near, 30 * (ex + 1e-12 * N) * (
                np.abs(Y).max(axis=0)), 0)
            rule = "users-base" if kind == "wave" else "lagrange"
            rec.close(rule, got[:, j], want, tol, planet=j)
            rec.counts["lagrange"] += M if kind == "wave" else 0
            if near.any():
                m = np.argmin(np.abs(np.arange(-1, 3)[:, None] - (x - c)),
                              axis=0)
                rec.close("node", got[:, j], Y[m, np.arange(M)], tol,
                          mask=near, planet=j)
            if kind == "wave":
                # the error of a cubic is bounded by the fourth derivative
                with rec.product("base"):
                    true = fb(tv, Pq, t0q, k)[:, j]
                kj = np.reshape(k + np.zeros(npl), npl)[j]
                h = 2 * np.pi / (N + 1)
                f4 = np.sum(np.abs(amp) * (np.arange(3) + 1) ** 4) * kj
                rec.close("accurate", got[:, j], true,
                          f4 * h**4 * (9 / 16) / 24 * 1.01 + tol)
            m = int(rng.integers(-5, 6))
            with rec.product("evaluate"):
                again = fi((tv + m * Pj[j]).reshape(tsh), Pq, t0q, k)
                again = again.reshape(M, npl)[:, j]
            extra = 8e-16 * abs(m) * Pj[j] / dx[j]
            rec.close("periodic", again, got[:, j],
                      2 * tol + 20 * extra * span)
        rec.seen(Pq, t0q, tv, N, nontrivial=bool(np.ptp(got) > 0),
                 sample=dict(rec.ctx["config"]))
