"""Velocities and accelerations are the exact derivatives of the positions

RULE: as for positions; an execution evaluates all velocities, accelerations
and positions of one random system; the monitors compare them with the analytic
two-body derivatives, with Newton's law, and with finite differences of the
positions that the same execution returned.
"""

import numpy as np

from vmon import gen, ref
from vmon.env import pt
from vmon.lib import System, same_axes, tol_by_perturbation

CASES = {"quick": 230, "thorough": 4000}
MIN = {"velocity": 20000, "acceleration": 20000, "barycentre": 5000,
       "finite-difference": 2000}
ASSUMPTIONS = ["velocities are judged in R_sun/day (star and relative) and in "
               "the same unit for the planet"]

BODIES = ("rel", "planet", "star")


def run_case(rec, rng, i):
    force = {}
    if i % 10 == 0:
        force = dict(ecc="omega", emax=0.96)
    if i % 9 == 1:
        force = dict(mass="zero")
    spec = gen.Spec(rng, **force)
    t = pt.dvector("t")
    via_joint = rng.random() < 0.3

    def outs(orbit, t):
        out = []
        for b in ("relative", "planet", "star"):
            out += list(getattr(orbit, "get_%s_position" % b)(t))
        for b in ("relative", "planet", "star"):
            out += list(getattr(orbit, "get_%s_velocity" % b)(t))
        for b in ("relative", "planet", "star"):
            out += list(getattr(orbit, "get_%s_acceleration" % b)(t))
        return out

    system = System(rec, rng, spec, outs, [t])
    for k in range(system.ndraws):
        kw, o = spec.draw(rng)
        nt = int(rng.integers(2, 25))
        tv = gen.times(rng, o, nt)
        # pairs of close times for the finite differences
        h = float(np.min(np.atleast_1d(ref.f64(o.period)))) * 1e-5 * float(
            np.min(np.atleast_1d(ref.f64(1 - o.e))) ** 1.5
        )
        tnear = float(np.atleast_1d(ref.f64(o.t0))[0]) + float(
            np.atleast_1d(ref.f64(o.period))[0]
        ) * rng.uniform(-1, 1)
        tv = np.concatenate([tv, [tnear - h, tnear, tnear + h]])
        got = system(kw, tv)
        same_axes(rec, got, tv, o.shape)
        got = [np.squeeze(g) for g in got]
        rec.seen(
            spec.key(), *[np.asarray(v) for v in kw.values()], tv,
            sample=dict(config=spec.describe(), inputs=kw, times=tv),
        )
        vmax = o.n * o.a / np.sqrt(1 - o.e**2) * (1 + o.e)
        amax = o.n**2 * o.a / (1 - o.e) ** 2
        vtol = tol_by_perturbation(
            o, lambda tt: o.rel_vel(tt, planet_times=True), tv, vmax
        )
        atol = tol_by_perturbation(
            o, lambda tt: o.rel_acc(tt, planet_times=True), tv, amax
        )
        for j, body in enumerate(BODIES):
            s = np.abs(o.scale(body))
            v = o.vel(body, tv)
            a = o.acc(body, tv)
            for c in range(3):
                rec.close(
                    "velocity", got[9 + 3 * j + c], np.squeeze(ref.f64(v[c])),
                    np.squeeze(ref.f64(2 * s * vtol[c] + 1e-12 * s * vmax)),
                    body=body, component="XYZ"[c], t=tv,
                )
                rec.close(
                    "acceleration", got[18 + 3 * j + c],
                    np.squeeze(ref.f64(a[c])),
                    np.squeeze(ref.f64(2 * s * atol[c] + 1e-12 * s * amax)),
                    body=body, component="XYZ"[c], t=tv,
                )
        # the code against itself: barycentre and relative = planet - star
        ms, mp = ref.f64(o.m_star), ref.f64(o.m_planet)
        for q, base in (("position", 0), ("velocity", 9),
                        ("acceleration", 18)):
            for c in range(3):
                rel, pl, st = (got[base + 3 * j + c] for j in range(3))
                sc = np.max(np.abs(rel)) * 1e-10 + 1e-300
                rec.close("barycentre", ms * st + mp * pl, 0 * rel,
                          sc * np.max(ms + mp), what=q)
                rec.close("barycentre", pl - st, rel, sc, what=q)
        # finite differences of what this execution returned
        Mn = np.angle(np.exp(1j * ref.f64(
            (np.asarray(tnear, dtype=ref.LD) - o.t0) * o.n + o.M_tr)))
        if abs(float(tnear)) < 1e4 and (
            o.circular or np.all(np.abs(Mn) < np.pi - 1e-3)
        ):
            d2h = tv[-1] - tv[-3]
            tround = 8 * ref.EPS * (abs(tnear) + abs(float(np.max(np.abs(
                ref.f64(o.t0))))) + float(np.max(np.atleast_1d(
                    ref.f64(o.period)))))
            jmax = ref.f64(o.n**3 * o.a / (1 - o.e) ** 4.5)
            smax = ref.f64(o.n**4 * o.a / (1 - o.e) ** 6)
            for j in range(3):
                s = ref.f64(np.abs(o.scale(BODIES[j])))
                for c in range(3):
                    p, v, a = (got[b + 3 * j + c] for b in (0, 9, 18))
                    rec.close(
                        "finite-difference", (p[-1] - p[-3]) / d2h, v[-2],
                        10 * s * (jmax * h**2 + ref.f64(vmax) * tround / h * 2
                             + ref.f64(o.a) * 1e-15 / h
                             + 1e-9 * ref.f64(vmax)) + 1e-14 / h,
                        body=BODIES[j], what="velocity", component="XYZ"[c],
                        t=tnear,
                    )
                    rec.close(
                        "finite-difference", (v[-1] - v[-3]) / d2h, a[-2],
                        10 * s * (smax * h**2 + ref.f64(amax) * tround / h * 2
                             + ref.f64(vmax) * 1e-14 / h
                             + 1e-9 * ref.f64(amax)) + 1e-14 / h,
                        body=BODIES[j], what="acceleration",
                        component="XYZ"[c], t=tnear,
                    )
