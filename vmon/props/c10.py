"""The flux is the limb-darkened starlight that the bodies in front block

RULE: a case is one LimbDarkLightCurve over a KeplerianOrbit or over a
user-defined orbit that places the bodies at chosen spots, corners of the
overlap included; an execution evaluates the light curve of all bodies and the
monitor integrates the blocked starlight independently; non-trivial when some
body overlaps the star.
"""

import numpy as np

from vmon import gen, hooks, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import System, fn

CASES = {"quick": 1000, "thorough": 12000}
MIN = {"stub-flux": 4000, "orbit-flux": 2000, "bounds": 4000,
       "behind": 500, "kernel:quad_solution_vector": 100,
       "rejected": 10}
ASSUMPTIONS = [
    "limb darkening coefficients within the physical triangle for the bounds",
]


class Placed:
    """The documented interface of an orbit, with bodies at given places"""

    def __init__(self, r_star, x, y, z):
        self.r_star, self.xyz = r_star, (x, y, z)

    def get_relative_position(self, t, light_delay=False):
        n = pt.zeros_like(pt.shape_padright(t))
        return tuple(c + n for c in self.xyz)


def seps(rng, k, n):
    kind = rng.integers(0, 10, n)
    eps = 10 ** rng.uniform(-14, -2, n) * rng.choice([-1, 1], n)
    return np.choose(kind, [
        rng.uniform(0, 1.3 + k), rng.uniform(0, 1.0 + k), k, np.abs(1 - k),
        1 + k, np.zeros(n), np.abs(k + eps), np.abs(1 - k + eps),
        np.abs(1 + k + eps), np.abs(eps),
    ])


def radii(rng, n):
    k = np.exp(rng.uniform(np.log(1e-3), np.log(0.4), n))
    big = rng.random(n) < 0.15
    k = np.where(big, rng.uniform(0.4, 2.5, n), k)
    return np.where(rng.random(n) < 0.03, 1.0, k)


def make_star(rec, rng, form, u1, u2):
    if form == "vector":
        with rec.product("vector of coefficients"):
            return xo.LimbDarkLightCurve(pt.stack([u1, u2]))
    return xo.LimbDarkLightCurve(u1, u2)


def stub(rec, rng, i):
    form = gen.pick(rng, ["sym", "vector", "float"], [0.6, 0.2, 0.2])
    x, y, z = pt.dmatrices("xyz")
    r = pt.dvector("r")
    t = pt.dvector("t")
    R, u1, u2 = pt.dscalars("R", "u1", "u2")
    rec.ctx["config"] = dict(kind="placed", form=form)
    lit = ref_lc.kipping(rng)
    with rec.product("build"):
        star = (
            xo.LimbDarkLightCurve(*lit) if form == "float"
            else make_star(rec, rng, form, u1, u2)
        )
        lc = star.get_light_curve(
            orbit=Placed(R, x, y, z), r=r, t=t, use_in_transit=False
        )
    with rec.product("compile"):
        f = fn(rng, [x, y, z, r, t, R, u1, u2], lc)
    for _ in range(8):
        n = int(rng.integers(1, 5))
        N = int(rng.integers(1, 40))
        k = np.broadcast_to(radii(rng, n), (N, n))
        b = seps(rng, k.ravel(), N * n).reshape(N, n)
        if rng.random() < 0.3:
            ang = rng.choice([0, np.pi / 2, np.pi, -np.pi / 2], (N, n))
        else:
            ang = rng.uniform(-np.pi, np.pi, (N, n))
        zz = rng.choice([1.0, 1.0, 1.0, -1.0, 0.0, 1e-12, 300.0, -1e-12],
                        (N, n))
        Rv = float(np.exp(rng.uniform(-2, 2)))
        U = lit if form == "float" else ref_lc.kipping(rng)
        if rng.random() < 0.15:
            # the coefficients of real fits can leave the triangle
            if form != "float":
                U = (float(rng.uniform(-0.5, 1.5)),
                     float(rng.uniform(-0.5, 0.8)))
        xs, ys = b * np.cos(ang), b * np.sin(ang)
        rec.ctx["inputs"] = dict(u=U, r_star=Rv, k=k[0])
        with rec.product("evaluate"), hooks.observe(rec):
            got = f(xs * Rv, ys * Rv, zz, k[0] * Rv, np.arange(N) * 1.0, Rv,
                    *U)
        b2 = np.sqrt((xs * Rv) ** 2 + (ys * Rv) ** 2) / Rv
        judge(rec, "stub-flux", got, b2, k, zz, U, 4 * ref.EPS * (1 + k + b2))
        rec.seen("stub", b, k, U, nontrivial=bool(np.any(b < 1 + k)),
                 sample=dict(b=b[:3], k=k[0], u=U))


def judge(rec, rule, got, b, k, z, U, db, behind=0.0):
    want = ref_lc.occultation(b, k, *U)
    tol = 1e-11 + 0 * b
    for q in (-1, 1, 0.3):
        tol = np.maximum(
            tol,
            2 * np.abs(ref_lc.occultation(b + q * db, k, *U) - want) + 1e-11,
        )
    front = z > 0
    # the native kernel is wrong within an ulp of b = k (known finding)
    ulp = front & (np.abs(b - k) <= 4e-16 * (1 + k))
    for mask, key in ((~ulp, None), (ulp, "kernel-b-next-to-k")):
        rec.close(rule, got, np.where(front, want, 0.0), tol, key=key,
                  mask=mask, b=b[:4], k=k[:4], z=z[:4], u=U)
    if got.shape != b.shape:
        return
    got = np.where(ulp, want, got)
    rec.check("behind", np.all(np.abs(got[~front]) <= behind),
              n=int((~front).sum()),
              worst=np.max(np.abs(got[~front])) if (~front).any() else 0)
    clear = b > 1 + k + db
    rec.check("behind", np.all(np.abs(got[clear]) < 1e-13),
              n=int(clear.sum()), what="no overlap")
    u1, u2 = U
    if u1 >= -1e-12 and u1 + u2 <= 1 + 1e-12 and u1 + 2 * u2 >= -1e-12:
        rec.check("bounds", np.all((got <= 1e-13) & (got >= -1 - 1e-12)),
                  n=got.size, low=got.min(), high=got.max())
        over = front & (b < 1 + k - np.maximum(db, 1e-3))
        rec.check("bounds", np.all(got[over & (k > 1e-2)] < 0),
                  n=int(over.sum()), what="overlap dims the star")
    hidden = front & (k > 1 + b + db)
    rec.check("bounds", np.all(np.abs(got[hidden] + 1) < 1e-12),
              n=int(hidden.sum()), what="fully covered")


def orbit(rec, rng, i):
    spec = gen.Spec(rng, emax=0.9, min_sep=2.6, pmax=400.0, bmax=1.25,
                    tbig=(i % 9 == 0),
                    mass=gen.pick(rng, ["none", "zero", "small", "binary"]),
                    incl_mode="transit" if rng.random() < 0.8 else None)
    t, r = pt.dvector("t"), pt.dvector("r")
    u1, u2 = pt.dscalars("u1", "u2")
    form = gen.pick(rng, ["sym", "vector"], [0.8, 0.2])
    scalar_r = spec.n is None

    def outs(o, t, r, u1, u2):
        star = make_star(rec, rng, form, u1, u2)
        return [
            star.get_light_curve(orbit=o, r=r[0] if scalar_r else r, t=t,
                                 use_in_transit=False)
        ]

    system = System(rec, rng, spec, outs, [t, r, u1, u2])
    for _ in range(system.ndraws):
        kw, o = spec.draw(rng)
        n = max(1, int(np.prod(o.shape)))
        tv, k = transit_times(rng, o, n, int(rng.integers(5, 50)))
        R = float(o.r_star)
        U = ref_lc.kipping(rng)
        rec.ctx["k"], rec.ctx["u"] = k, U
        got = system(kw, tv, k * R, *U)[0]
        X, Y, Z = (np.reshape(ref.f64(c), (len(tv), n)) for c in o.rel(tv))
        d = np.reshape(
            np.broadcast_to(ref.f64(o.dt_rounding(tv)),
                            (len(tv),) + o.shape), (len(tv), n))
        a, P, e = (np.broadcast_to(ref.f64(q), o.shape).reshape(-1)
                   for q in (o.a, o.period, o.e))
        v = 2 * np.pi * a / P * np.sqrt((1 + e) / (1 - e))
        db = (v * d + 2e-9 * a) / R
        # the side of the sky plane is ambiguous within the rounding
        amb = np.abs(Z) < R * db + 1e-9 * a
        b = np.hypot(X, Y) / R
        Z = np.where(amb & (np.reshape(got, b.shape) == 0)
                     if got.size == b.size else False, -1.0, Z)
        judge(rec, "orbit-flux", got, b, np.broadcast_to(k, b.shape), Z, U,
              db, behind=1e-13)
        rec.seen("orbit", *[np.asarray(q) for q in kw.values()], k, U,
                 nontrivial=bool(np.any((b < 1 + k) & (Z > 0))))


def transit_times(rng, o, n, N):
    """(times that cluster in transits and occultations, radius ratios)"""
    def full(x):
        return np.broadcast_to(ref.f64(x), o.shape).reshape(-1)

    P, t0, a, e, w = (full(x) for x in (o.period, o.t0, o.a, o.e, o.w))
    R = float(o.r_star)
    k = np.exp(rng.uniform(np.log(3e-3), np.log(0.4), n))
    if rng.random() < 0.1:
        k = rng.uniform(0.4, 1.4, n)
    fac = np.ones(n) if o.circular else np.sqrt(1 - e**2) / (
        1 + e * np.sin(w))
    dur = P / np.pi * R * (1 + k) / a * fac
    tv = np.empty(N)
    for q in range(N):
        j = int(rng.integers(n))
        m = int(rng.integers(-4, 5))
        s = rng.random()
        if s < 0.7:
            tv[q] = t0[j] + m * P[j] + dur[j] * rng.uniform(-0.6, 0.6)
        elif s < 0.75:
            tv[q] = t0[j] + m * P[j]
        elif s < 0.87:
            tv[q] = t0[j] + (m + 0.5) * P[j] + dur[j] * rng.uniform(-1, 1)
        else:
            tv[q] = t0[j] + P[j] * rng.uniform(-2, 2)
    return tv, k


def rejected(rec, rng):
    star = xo.LimbDarkLightCurve(0.3, 0.2)
    o = Placed(pt.constant(1.0), pt.zeros(1), pt.zeros(1), pt.ones(1))
    t = np.linspace(0, 1, 3)
    for kw in (dict(r=0.1, t=t), dict(orbit=o, t=t), dict(orbit=o, r=0.1)):
        rec.expect_raise(
            "rejected", (ValueError,), lambda: star.get_light_curve(**kw),
            given=sorted(kw),
        )
    for bad in (np.array([0.1, 0.2, 0.3]), np.array([0.3])):
        def run():
            s = xo.LimbDarkLightCurve(bad)
            s.get_light_curve(orbit=o, r=0.1, t=t,
                              use_in_transit=False).eval()
        rec.expect_raise("rejected", Exception, run, u=bad)


def run_case(rec, rng, i):
    if i % 40 == 3:
        rejected(rec, rng)
    if i % 2:
        stub(rec, rng, i)
    else:
        orbit(rec, rng, i)
