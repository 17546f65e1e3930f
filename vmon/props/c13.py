"""Light travel time is the solution of the retarded-position equation

RULE: a case is one KeplerianOrbit and one set of methods called with
light_delay=True; an execution compares every returned position, angle and flux
with the position at the emission time t_e that solves t_e = t + z(t_e) / c for
that body; non-trivial when the delay moves the body by more than the tolerance.
"""

import numpy as np

from vmon import gen, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import System, same_axes

CASES = {"quick": 300, "thorough": 5000}
MIN = {"planet": 5000, "star": 5000, "relative": 5000, "angles": 1000,
       "parallax": 1000, "lightcurve": 500, "moved": 10000, "delay-time": 500}
ASSUMPTIONS = [
    "orbital speeds below a hundredth of the speed of light; the delay is "
    "good to the second-order expansion the documentation refers to",
]


def dt_expansion(o, s):
    """error of the emission time of the second-order expansion"""
    a = np.abs(o.a * s)
    d = a * (1 + o.e) / ref.C
    jerk = a * o.n**3 / (1 - o.e) ** ref.LD("3.5")
    v = a * o.n / np.sqrt((1 - o.e) / (1 + o.e))
    acc = a * o.n**2 / (1 - o.e) ** 2
    return jerk * d**3 / ref.C + 4 * acc * d**2 / ref.C * v / ref.C


def run_case(rec, rng, i):
    tight = i % 4 == 0
    spec = gen.Spec(rng, emax=0.8, tbig=False,
                    min_sep=2.2, pmax=30.0 if tight else 3000.0,
                    pmin=0.3)
    tdim = gen.pick(rng, [1, 1, 1, 2, 0])
    t = [pt.dscalar, pt.dvector, pt.dmatrix][tdim]("t")
    par = pt.dscalar("parallax")
    r = pt.dvector("r")
    use_par = rng.random() < 0.3
    angles = rng.random() < 0.4
    lc = tdim == 1 and rng.random() < 0.5
    U = ref_lc.kipping(rng)
    scalar_r = spec.n is None

    def outs(orbit, t, par, r):
        kw = dict(light_delay=True)
        if use_par:
            kw["parallax"] = par
        out = list(orbit.get_relative_position(t, **kw))
        out += list(orbit.get_planet_position(t, **kw))
        out += list(orbit.get_star_position(t, **kw))
        if angles:
            out += list(orbit.get_relative_angles(t, **kw))
        if lc:
            out.append(xo.LimbDarkLightCurve(*U).get_light_curve(
                orbit=orbit, r=r[0] if scalar_r else r, t=t,
                light_delay=True))
        return out

    system = System(rec, rng, spec, outs, [t, par, r])
    for _ in range(system.ndraws):
        kw, o = spec.draw(rng)
        m = max(1, int(np.prod(o.shape)))
        nt = int(rng.integers(1, 25))
        tv = gen.times(rng, o, nt, far=False)
        k = np.exp(rng.uniform(np.log(3e-2), np.log(0.4), m))
        R = float(o.r_star)
        if lc:
            a, P, t0 = (np.broadcast_to(ref.f64(q), o.shape).reshape(-1)
                        for q in (o.a, o.period, o.t0))
            j = rng.integers(0, m, nt)
            dur = P / np.pi * R / a
            tv = np.where(rng.random(nt) < 0.6, t0[j] - a[j] / ref.C
                          + dur[j] * rng.uniform(-0.7, 0.7, nt), tv)
        if tdim == 2:
            tv = tv[: 2 * (len(tv) // 2)].reshape(2, -1)
            if tv.size == 0:
                continue
        elif tdim == 0:
            tv = tv[0]
        pv = float(np.exp(rng.uniform(-6, 1)))
        rec.ctx.update(t=np.asarray(tv).ravel()[:6])
        got = system(kw, tv, pv, k * R)
        same_axes(rec, got[:9], tv, o.shape)
        f = pv * ref.AU_PER_RSUN if use_par else 1.0
        want = {}
        for jb, body in enumerate(("rel", "planet", "star")):
            s = o.scale(body)
            pos, te = o.pos_delayed(body, tv)
            vel = tuple(s * c for c in o.rel_vel(te, planet_times=True))
            speed = np.sqrt(sum(c * c for c in vel))
            dt = o.dt_rounding(tv, factor=24.0, delay=True) + dt_expansion(o, s)
            tol = ref.f64(speed * dt * 1.5 + 1e-9 * np.abs(s) * o.a
                          + 1e-300)
            want[body] = (pos, tol)
            flat = o.pos(body, tv)
            for c in range(3):
                rec.close(
                    {"rel": "relative"}.get(body, body),
                    np.squeeze(got[3 * jb + c]),
                    np.squeeze(ref.f64(f * pos[c])),
                    np.squeeze(tol * f), component="XYZ"[c],
                    parallax=pv if use_par else None,
                )
                rec.counts["moved"] += int(np.sum(
                    np.abs(ref.f64(pos[c] - flat[c])) > tol))
        if use_par:
            rec.counts["parallax"] += int(np.size(tv))
        q = 9
        if angles:
            (X, Y, Z), tol = want["rel"]
            rho = ref.f64(np.hypot(X, Y))
            rec.close("angles", np.squeeze(got[9]), np.squeeze(f * rho),
                      np.squeeze(2 * f * tol), what="separation")
            th = ref.f64(np.arctan2(Y, X))
            with np.errstate(all="ignore"):
                ta = np.squeeze(4 * tol / rho) + 1e-12
            diff = np.angle(np.exp(1j * (np.squeeze(got[10])
                                         - np.squeeze(th))))
            rec.close("angles", diff, 0 * diff,
                      np.where(ta < 0.1, ta, 10.0), what="position angle")
            q = 11
        if lc:
            (X, Y, Z), tol = want["rel"]
            X, Y, Z, tol = (np.reshape(ref.f64(c), (nt, m))
                            for c in (X, Y, Z, np.broadcast_to(
                                tol, np.shape(X))))
            b = np.hypot(X, Y) / R
            F = ref_lc.occultation(b, k, *U)
            ft = 1e-11 + 0 * F
            for sg in (-1, 1, 0.3):
                ft = np.maximum(ft, 1e-11 + 2 * np.abs(ref_lc.occultation(
                    b + sg * 3 * tol / R, k, *U) - F))
            ok = np.abs(Z) > 4 * tol
            rec.close("lightcurve", got[q], np.where(Z > 0, F, 0.0), ft,
                      mask=ok)
        rec.seen(spec.key(), *[np.asarray(v) for v in kw.values()],
                 np.asarray(tv), nontrivial=True,
                 sample=dict(config=spec.describe(), inputs=kw))
    if i % 8 == 0:
        delay_time(rec, rng)


def delay_time(rec, rng):
    """the mid transit of a planet of negligible mass is early by a / c"""
    P = pt.dscalar("P")
    t = pt.dvector("t")
    with rec.product("build"):
        o = xo.orbits.KeplerianOrbit(period=P)
        f = [
            o.get_relative_position(t, light_delay=True)[0],
            o.get_planet_position(t, light_delay=True)[0],
        ]
        import pytensor

        f = pytensor.function([P, t], f + [o.a])
    for _ in range(10):
        Pv = float(np.exp(rng.uniform(0, 8)))
        a = float(ref.a_from_period(Pv, 1.0))
        k = np.arange(-3, 4)
        tt = k * Pv - a / ref.C
        x1, x2, aa = f(Pv, tt)
        v = 2 * np.pi * a / Pv
        rec.close("delay-time", x1 / v, 0 * tt, 1e-6 * a / ref.C + 1e-9)
        rec.close("delay-time", x2 / v, 0 * tt, 1e-6 * a / ref.C + 1e-9)
