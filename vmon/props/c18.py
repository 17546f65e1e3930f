"""Radial velocities: redshift positive, in the requested units, K as defined

RULE: a case is one KeplerianOrbit parameterisation and one output unit; an
execution evaluates the radial velocity from the masses and from a given
semi-amplitude at random, conjunction, periastron and far epochs; non-trivial
when the amplitude is not zero.
"""

import astropy.units as u
import numpy as np

from vmon import gen, ref
from vmon.env import pt
from vmon.lib import System, same_axes, tol_by_perturbation

CASES = {"quick": 500, "thorough": 20000}
MIN = {"mass": 10000, "K": 10000, "units": 2000, "reflex": 10000,
       "same-curve": 3000, "mean-zero": 200, "amplitude": 200,
       "massless": 500}
UNITS = {
    "default": (None, 1.0),
    "km/s": (u.km / u.s, 1e-3),
    "cm/s": (u.cm / u.s, 1e2),
    "R_sun/day": (u.R_sun / u.day, 1 / ref.MS_PER_RSUN_DAY),
    "AU/yr": (u.AU / u.yr, 365.25 * 86400 / ref.AU_M),
    "km/h": (u.km / u.hr, 3.6),
}


def run_case(rec, rng, i):
    spec = gen.Spec(rng, tbig=(i % 8 == 0))
    unit = gen.pick(rng, list(UNITS))
    kvec = spec.n is not None and rng.random() < 0.8
    # an amplitude alone does not know that there are several companions when
    # they share the rest
    kvec = kvec or (spec.n is not None and not spec.vec["period"])
    t, K = pt.dvector("t"), (pt.dvector if kvec else pt.dscalar)("K")
    kform = gen.pick(rng, ["sym", "np", "list", "float"])
    Kval = (np.exp(rng.uniform(-2, 6, spec.n)) if kvec
            else float(np.exp(rng.uniform(-2, 6))))
    if rng.random() < 0.1:
        Kval = -Kval
    Karg = {"sym": K, "np": np.array(Kval), "list": np.array(Kval).tolist(),
            "float": np.array(Kval).tolist()}[kform]
    if kform == "list" and not kvec:
        Karg = int(round(Kval)) or 1
        Kval = float(Karg)
    rec.ctx["unit"] = unit
    rec.ctx["K"] = dict(value=Kval, form=kform)

    def outs(o, t, K):
        return [
            o.get_radial_velocity(t),
            o.get_radial_velocity(t, output_units=UNITS[unit][0]),
            o.get_radial_velocity(t, K=Karg),
            o.get_radial_velocity(t, K=Karg, output_units=UNITS[unit][0]),
            o.get_star_velocity(t)[2],
        ] + list(o.get_star_position(t))

    system = System(rec, rng, spec, outs, [t, K])
    for _ in range(system.ndraws):
        kw, o = spec.draw(rng)
        tv = gen.times(rng, o, 24)
        # one full period of the first companion, evenly spaced in time
        P = float(np.ravel(ref.f64(o.period))[0])
        grid = tv[0] + P * np.arange(32) / 32
        got = system(kw, np.concatenate([tv, grid]), Kval)
        same_axes(rec, got, np.concatenate([tv, grid]), o.shape)
        N = len(tv) + 32
        allt = np.concatenate([tv, grid])
        want_shape = np.broadcast_shapes((N, 1), (1,) + o.shape) \
            if o.shape else (N,)

        def cols(x):
            x = np.asarray(x, dtype=float)
            if np.squeeze(x).shape != np.squeeze(np.empty(want_shape)).shape:
                rec.violate("shape", got=x.shape, want=want_shape)
                return np.full(want_shape, np.nan)
            return x.reshape(want_shape)

        # from the masses
        amp = ref.f64(np.abs(o.frac_star) * o.n * o.a / (1 - o.e)) + 0.0

        def func(w):
            return (ref.MS_PER_RSUN_DAY * o.frac_star
                    * o.rel_vel(w, planet_times=True)[2],)
        scale = amp * ref.MS_PER_RSUN_DAY
        tol, = tol_by_perturbation(o, func, allt, scale)
        want = ref.f64(func(
            (allt.astype(ref.LD)[:, None] if o.shape else
             allt.astype(ref.LD)))[0])
        rec.close("mass", cols(got[0]), want, tol + 1e-300, t=allt)
        rec.close("units", cols(got[1]), want * UNITS[unit][1],
                  (tol + 1e-9 * np.abs(want)) * UNITS[unit][1] + 1e-300,
                  t=allt)
        rec.close("reflex", cols(got[0]),
                  -ref.MS_PER_RSUN_DAY * cols(got[4]),
                  1e-12 * (np.abs(cols(got[0])) + scale) + 1e-300)
        if np.all(ref.f64(o.m_planet) == 0):
            rec.close("massless", cols(got[0]), 0 * want, 0)
        # from a semi-amplitude
        KK = np.broadcast_to(np.asarray(Kval, dtype=ref.LD), o.shape)
        si = np.sin(o.incl)

        def kfunc(w):
            sf, cf, _ = o.anomaly_at_planet_times(w)
            if o.circular:
                return (KK * cf,)
            return (KK * (np.cos(o.w) * cf - np.sin(o.w) * sf
                          + o.e * np.cos(o.w)),)

        ktol, = tol_by_perturbation(o, kfunc, allt, ref.f64(np.abs(KK)))
        kwant = ref.f64(kfunc(
            (allt.astype(ref.LD)[:, None] if o.shape else
             allt.astype(ref.LD)))[0])
        rec.close("K", cols(got[2]), kwant, ktol, t=allt)
        rec.close("K", cols(got[3]), kwant, ktol, t=allt,
                  what="units are ignored")
        # both are the same curve once K is what the masses imply
        Kimp = ref.f64(o.frac_star * o.n * o.a * si / np.sqrt(1 - o.e**2)
                       * ref.MS_PER_RSUN_DAY)
        rec.close("same-curve",
                  cols(got[2]) * Kimp / ref.f64(KK), cols(got[0]),
                  tol + 1e-300 + ktol * np.abs(Kimp / ref.f64(KK)))
        # a closed orbit: no net motion, and the extremes give K
        kg = cols(got[2])[len(tv):]
        k0 = kg if not o.shape else kg[:, 0]
        e = float(np.ravel(ref.f64(o.e))[0])
        w = float(np.ravel(ref.f64(o.w))[0])
        ka = abs(float(np.ravel(ref.f64(KK))[0]))
        if e < 0.5:
            # the trapezoidal rule converges geometrically
            rec.close("mean-zero", np.mean(k0), 0.0,
                      ka * 1e-3 + np.max(ktol))
        rec.check("amplitude", np.max(k0) <= ka * (
            1 + e * abs(np.cos(w))) + np.max(ktol) and
            np.max(k0) - np.min(k0) <= 2 * ka + 2 * np.max(ktol))
        if e < 0.3:
            rec.check("amplitude", np.max(k0) - np.min(k0) >= 1.8 * ka,
                      got=np.max(k0) - np.min(k0), K=ka)
        rec.seen(spec.key(), unit, tv, *kw.values(), nontrivial=True,
                 sample=dict(config=spec.describe(), unit=unit, K=Kval))
