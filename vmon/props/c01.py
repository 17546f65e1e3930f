"""Positions follow the documented Keplerian geometry

RULE: a case is one random parameterisation of KeplerianOrbit (which arguments
are given, scalar/vector mix, symbolic or literal inputs); an execution is one
evaluation of all positions for random numbers and hostile times; distinct and
non-trivial when the configuration and numbers differ and the orbit is not the
default one.
"""

import numpy as np

from vmon import gen, ref
from vmon.env import pt
from vmon.lib import System, same_axes, tol_by_perturbation

CASES = {"quick": 420, "thorough": 4000}
MIN = {
    "relative": 20000, "planet": 20000, "star": 20000, "angles": 2000,
    "parallax": 1000, "kernel:kepler": 100,
}
ASSUMPTIONS = [
    "reference physics in extended precision; tolerances cover the rounding "
    "of the time axis and 1e-9 of the size of the orbit",
]


def run_case(rec, rng, i):
    force = {}
    if i % 10 == 0:
        force = dict(ecc="omega", emax=0.97)
    spec = gen.Spec(rng, **force)
    tdim = gen.pick(rng, [1, 1, 1, 2, 0])
    t = [pt.dscalar, pt.dvector, pt.dmatrix][tdim]("t")
    par = pt.dscalar("parallax")
    use_par = rng.random() < 0.35
    angles = rng.random() < 0.4

    def outs(orbit, t, par):
        kw = dict(parallax=par) if use_par else {}
        out = list(orbit.get_relative_position(t, **kw))
        out += list(orbit.get_planet_position(t, **kw))
        out += list(orbit.get_star_position(t, **kw))
        if angles:
            out += list(orbit.get_relative_angles(t, **kw))
        return out

    system = System(rec, rng, spec, outs, [t, par])
    for k in range(system.ndraws):
        kw, o = spec.draw(rng)
        nt = int(rng.integers(1, 30))
        tv = gen.times(rng, o, nt)
        if tdim == 2:
            tv = tv[: 3 * (len(tv) // 3)].reshape(3, -1)
            if tv.size == 0:
                continue
        elif tdim == 0:
            tv = tv[0]
        pv = float(np.exp(rng.uniform(-6, 1)))
        got = system(kw, tv, pv)
        same_axes(rec, got, tv, o.shape)
        rec.seen(
            spec.key(), *[np.asarray(v) for v in kw.values()], np.asarray(tv),
            sample=dict(config=spec.describe(), inputs=kw, times=tv),
        )
        f = pv * ref.AU_PER_RSUN if use_par else 1.0
        want = {}
        for j, body in enumerate(("rel", "planet", "star")):
            w = o.pos(body, tv)
            s = np.abs(o.scale(body))
            tol = tol_by_perturbation(
                o, lambda tt: o.rel(tt, planet_times=True), tv,
                o.a * (1 + o.e),
            )
            want[body] = (w, tol)
            for c in range(3):
                rec.close(
                    {"rel": "relative", "planet": "planet", "star": "star"}[
                        body
                    ],
                    np.squeeze(got[3 * j + c]),
                    np.squeeze(ref.f64(f * w[c])),
                    np.squeeze(ref.f64(f * s * tol[c])) * 2
                    + np.squeeze(ref.f64(s * o.a * f * 1e-12) + 0 * tol[c]),
                    component="XYZ"[c], body=body, t=tv,
                    parallax=pv if use_par else None,
                )
        if use_par:
            rec.counts["parallax"] += int(np.size(tv))
        if angles:
            (X, Y, Z), tol = want["rel"]
            rho = np.sqrt(X * X + Y * Y)
            dr = tol[0] + tol[1]
            rec.close(
                "angles", np.squeeze(got[9]), np.squeeze(ref.f64(f * rho)),
                np.squeeze(ref.f64(2 * f * dr)), t=tv, what="separation",
            )
            th = np.squeeze(ref.f64(np.arctan2(Y, X)))
            g = np.squeeze(got[10])
            rec.check("angles-range", np.all(np.abs(g) <= np.pi + 1e-12))
            if g.shape == th.shape:
                diff = np.angle(np.exp(1j * (g - th)))
                with np.errstate(all="ignore"):
                    ta = np.squeeze(ref.f64(4 * dr / rho)) + 1e-12
                rec.close(
                    "angles", diff, 0 * th, np.where(ta < 0.1, ta, 10.0),
                    t=tv, what="position angle",
                )
            else:
                rec.check("angles:shape", False, got=g.shape, want=th.shape)
