"""A transit depth converts into the radius that blocks that much light

RULE: a case is one star and one or more pairs of depth and impact parameter; an
execution converts the depths, compares them with the definition and lets a
planet of that radius cross the star at that impact parameter (through the light
curve of a circular orbit and through an independent integration); non-trivial
when the impact parameter is not zero.
"""

import numpy as np

from vmon import gen, ref_lc
from vmon.env import pt, xo
from vmon.lib import KO, fn

CASES = {"quick": 1100, "thorough": 15000}
MIN = {"definition": 500, "depth": 400, "light-curve": 300, "shape": 300,
       "slope": 300, "monotonic": 300}
ASSUMPTIONS = ["physical limb darkening", "impact parameters below one"]


def run_case(rec, rng, i):
    U = ref_lc.kipping(rng)
    sh = gen.pick(rng, [(), (1,), (3,), (2, 3)])
    scalar_delta = sh != () and rng.random() < 0.3
    form = gen.pick(rng, ["sym", "const", "vector"])
    b = rng.uniform(0, 0.97, sh)
    if rng.random() < 0.2:
        # up to the limb
        b = 1 - 10 ** rng.uniform(-7, -2, sh)
    if rng.random() < 0.15:
        b = np.zeros(sh)
    delta = np.exp(rng.uniform(np.log(1e-7), np.log(2e-2),
                               () if scalar_delta else sh))
    b, delta = np.asarray(b), np.asarray(delta)
    rec.ctx["config"] = dict(U=U, b=b, delta=delta, form=form)
    u1, u2 = pt.dscalars("u1", "u2")
    bv = pt.TensorType("float64", (None,) * b.ndim)("b")
    dv = pt.TensorType("float64", (None,) * delta.ndim)("delta")
    with rec.product("get_ror_from_approx_transit_depth"):
        if form == "vector":
            star = xo.LimbDarkLightCurve(pt.stack([u1, u2]))
        elif form == "sym":
            star = xo.LimbDarkLightCurve(u1, u2)
        else:
            star = xo.LimbDarkLightCurve(*U)
        if form == "const":
            bb = b.tolist() if rng.random() < 0.5 else b
            dd = delta.tolist() if rng.random() < 0.5 else delta
        else:
            bb, dd = bv, dv
        k = star.get_ror_from_approx_transit_depth(dd, bb)
        k2, j = star.get_ror_from_approx_transit_depth(dd, bb, jac=True)
        f = fn(rng, [u1, u2, bv, dv], [k, k2, j])
        k, k2, j = f(*U, b, delta)
    rec.check("shape", k.shape == b.shape and j.shape == b.shape,
              got=[k.shape, j.shape], want=b.shape)
    rec.check("definition", np.array_equal(k, k2), what="with jac")
    mu = np.sqrt(1 - b**2)
    inten = 1 - U[0] * (1 - mu) - U[1] * (1 - mu) ** 2
    mean = 1 - U[0] / 3 - U[1] / 6
    rec.close("definition", k**2 * inten / mean, delta + 0 * b,
              delta * (1e-13 + 4e-15 / (mu * inten)))
    if k.shape != b.shape:
        return
    # d ror / d delta = ror / (2 delta)
    h = 1e-4
    def at(d):
        if form != "const":
            return f(*U, b, d)[0]
        with rec.product("get_ror_from_approx_transit_depth"):
            return star.get_ror_from_approx_transit_depth(d, b).eval()

    hi, lo = at(delta * (1 + h)), at(delta * (1 - h))
    num = (hi - lo) / (2 * h * delta)
    rec.close("slope", j, num, 1e-6 * np.abs(num))
    rec.check("monotonic", np.all(hi > k) and np.all(k > lo), n=k.size)

    # between the depths of discs all over the covered annulus
    K, B, D = (np.broadcast_to(q, b.shape).ravel() for q in (k, b, delta))
    keep = B + K < 0.999

    def I(x):
        m = np.sqrt(1 - np.clip(x, 0, 1) ** 2)
        return (1 - U[0] * (1 - m) - U[1] * (1 - m) ** 2) / mean

    edges = np.stack([I(np.maximum(B - K, 0)), I(B + K), I(B)])
    low = K**2 * edges.min(axis=0) * (1 - 1e-6) - 1e-13
    high = K**2 * edges.max(axis=0) * (1 + 1e-6) + 1e-13
    deep = -ref_lc.occultation(B, K, *U)
    rec.check("depth", np.all(((deep >= low) & (deep <= high))[keep]),
              n=int(keep.sum()), depth=deep, low=low, high=high)
    # the definition must agree with the small planet limit to O(k)
    n = min(len(K), 3)
    if keep[:n].any():
        with rec.product("light curve"):
            o = KO(period=np.full(n, 10.0), t0=np.zeros(n), b=B[:n],
                   m_star=1.0, r_star=1.0)
            lc = xo.LimbDarkLightCurve(*U).get_light_curve(
                orbit=o, r=K[:n], t=[0.0, 5.0], use_in_transit=False)
            lc = fn(rng, [], lc, mode="plain")()
        got = -lc[0]
        ok = (got >= low[:n] - 1e-11) & (got <= high[:n] + 1e-11)
        rec.check("light-curve", np.all(ok[keep[:n]]), n=int(keep[:n].sum()),
                  got=got, low=low[:n], high=high[:n], want=D[:n])
        width = (high - low)[:n]
        rec.check("light-curve", np.all(
            (np.abs(got - D[:n]) <= width + 1e-11)[keep[:n]]),
            got=got, want=D[:n])
    rec.seen(U, b, delta, nontrivial=bool(np.any(b > 0)),
             sample=dict(u=U, b=b, delta=delta, ror=k))
