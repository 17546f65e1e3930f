"""Radial velocity estimates are the weighted fit, in the documented units

RULE: a case is one radial velocity series (one to three companions, even or
uneven uncertainties, with or without transit times, with any units attached);
an execution estimates the semi-amplitudes and minimum masses and compares them
with an independent weighted least squares fit, with the amplitudes that the
series was made from and, through an orbit, with the masses that cause them;
non-trivial when noise or several companions are present.
"""

import astropy.constants as const
import astropy.units as u
import numpy as np

from vmon import gen
from vmon.env import xo

CASES = {"quick": 4500, "thorough": 60000}
MIN = {"recovered": 300, "least-squares": 300, "units": 300, "mass": 300,
       "orbit": 100, "orbit-mass": 60, "scaled": 200, "untouched": 500,
       "yerr:vector": 100, "yerr:scalar": 50, "yerr:none": 50}
ASSUMPTIONS = ["the series constrains all amplitudes (condition number of the "
               "normal equations below 1e7)"]

TIME = [u.day, u.hour, u.yr, u.s, u.minute]
SPEED = [u.m / u.s, u.km / u.s, u.cm / u.s, u.R_sun / u.day]
MASS = [u.M_sun, u.kg, u.M_jup, u.g]
M_J = const.M_jup.to(u.M_sun).value


def design(P, t0, x):
    cols = []
    for j in range(len(P)):
        p = 2 * np.pi * x / P[j]
        if t0 is None:
            cols += [np.sin(p), np.cos(p)]
        else:
            # zero at the transit and going towards the observer after it
            cols.append(-np.sin(2 * np.pi * (x - t0[j]) / P[j]))
    return np.stack(cols + [np.ones_like(x)], axis=1)


def run_case(rec, rng, i):
    n = int(rng.integers(1, 4))
    P = np.exp(rng.uniform(np.log(0.5), np.log(300), n))
    K = np.exp(rng.uniform(np.log(0.05), np.log(3e3), n))
    phase = rng.uniform(0, 1, n)
    t0 = P * (phase + rng.integers(-3, 4, n))
    know = rng.random() < 0.5
    N = int(rng.integers(12, 80))
    span = P.max() * rng.uniform(1.2, 6)
    x = np.sort(rng.uniform(0, span, N)) + gen.pick(rng, [0.0, 1000.0, -50.0])
    if rng.random() < 0.3:
        x = rng.permutation(x)
    # exact sinusoids: the radial velocity of circular orbits
    y = np.sum([-K[j] * np.sin(2 * np.pi * (x - t0[j]) / P[j])
                for j in range(n)], axis=0) + rng.normal() * 100
    err = gen.pick(rng, ["none", "scalar", "vector", "vector"])
    s = np.exp(rng.uniform(np.log(0.01), np.log(100)))
    yerr = {"none": None, "scalar": float(s),
            "vector": s * np.exp(rng.normal(size=N))}[err]
    rec.event("yerr:" + err)
    w = np.ones(N) if yerr is None else 1 / yerr + np.zeros(N)
    A = design(P, t0 if know else None, x)
    cond = np.linalg.cond((A * w[:, None])) ** 2
    if cond > 1e7:
        rec.event("degenerate")
        return
    rec.ctx["inputs"] = dict(P=P, K=K, t0=t0, know=know, x=x, yerr=yerr)
    scale = np.max(np.abs(y))
    tol = 1e-14 * cond * scale + 1e-9 * scale
    t = t0 if know else None
    sc = n == 1 and rng.random() < 0.5
    arg_P = float(P[0]) if sc else P
    arg_t = None if t is None else float(t[0]) if sc else t

    copies = [np.array(q, copy=True) for q in (P, x, y)]
    kw = {}
    if yerr is not None:
        kw["yerr"] = yerr
    if arg_t is not None:
        kw["t0s"] = arg_t
    with rec.product("estimate"):
        got = np.asarray(xo.estimate_semi_amplitude(arg_P, x, y, **kw))
    rec.close("recovered", got, K, tol)
    rec.check("plain", not isinstance(got, u.Quantity))

    # with noise: the weighted least squares solution, computed independently
    noise = rng.normal(size=N) * K.mean() * 10 ** rng.uniform(-3, 1)
    yn = y + noise
    copies.append(yn.copy())
    coef = np.linalg.lstsq(A * w[:, None], yn * w, rcond=None)[0][:-1]
    want = coef if know else np.sqrt(coef[::2] ** 2 + coef[1::2] ** 2)
    with rec.product("estimate"):
        got = np.asarray(xo.estimate_semi_amplitude(arg_P, x, yn, **kw))
    scale = np.max(np.abs(yn))
    tol = 1e-14 * cond * scale + 1e-9 * scale
    rec.close("least-squares", got, want, tol)
    rec.seen(P, x, yn, err, know, sample=rec.ctx["inputs"])

    # scaling all of the uncertainties changes nothing
    if yerr is not None:
        k2 = dict(kw, yerr=yerr * 7.3)
        with rec.product("estimate"):
            g2 = xo.estimate_semi_amplitude(arg_P, x, yn, **k2)
        rec.close("scaled", g2, got, tol)

    # the minimum mass of these amplitudes
    ms = float(np.exp(rng.uniform(np.log(0.1), np.log(5))))
    yr = 365.25
    want_m = got / 28.4329 * ms ** (2 / 3) * (P / yr) ** (1 / 3)
    mkw = dict(kw)
    if ms != 1 and rng.random() < 0.9:
        mkw["m_star"] = ms
    else:
        want_m = want_m / ms ** (2 / 3)
    with rec.product("minimum mass"):
        m = xo.estimate_minimum_mass(arg_P, x, yn, **mkw)
    rec.check("quantity", isinstance(m, u.Quantity))
    # the constant is good to a few digits in any system of constants
    rec.close("mass", m.to(u.M_jup).value, want_m,
              2e-4 * np.abs(want_m) + 1e-12)

    # attach units to a random subset of the inputs
    def q(v, base, choices):
        if v is None or rng.random() < 0.4:
            return v
        return (np.asarray(v) * base).to(gen.pick(rng, choices))

    with rec.product("units"):
        ukw = {}
        if yerr is not None:
            ukw["yerr"] = q(yerr, u.m / u.s, SPEED)
        if arg_t is not None:
            ukw["t0s"] = q(arg_t, u.day, TIME)
        args = (q(arg_P, u.day, TIME), q(x, u.day, TIME),
                q(yn, u.m / u.s, SPEED))
        rec.ctx["units"] = [str(getattr(v, "unit", None)) for v in args]
        gu = np.asarray(xo.estimate_semi_amplitude(*args, **ukw))
        # conversions move the phases by their rounding
        dphi = 1e-13 * (1 + np.max(np.abs(x)) / P.min())
        rec.close("units", gu, got, tol + dphi * scale * np.sqrt(cond) * 10)
        if "m_star" in mkw:
            ukw["m_star"] = q(mkw["m_star"], u.M_sun, MASS)
        mu = xo.estimate_minimum_mass(*args, **ukw)
        rec.close("units", mu.to(u.M_jup).value, m.to(u.M_jup).value,
                  np.abs(m.to(u.M_jup).value) * (tol + dphi * scale * np.sqrt(
                      cond) * 10) / np.maximum(np.abs(got), 1e-300) + 1e-12)
    for a, b in zip((P, x, y, yn), copies):
        rec.check("untouched", np.array_equal(a, b))

    # the orbit with that period, epoch and mass
    if i % 5 == 0:
        mp = 10 ** rng.uniform(-7, -3, n) * ms
        inc = np.arccos(rng.uniform(0, 0.9, n))
        with rec.product("orbit"):
            o = xo.orbits.KeplerianOrbit(
                period=P, t0=t0, incl=inc, m_star=ms, r_star=1.0, m_planet=mp)
            v1 = np.asarray(o.get_radial_velocity(x, K=K).eval())
            v2 = np.asarray(o.get_radial_velocity(x).eval())
            v1, v2 = [v.reshape(N, n).sum(axis=1) + 12.3 for v in (v1, v2)]
            g1 = np.asarray(xo.estimate_semi_amplitude(arg_P, x, v1, **kw))
            okw = dict(kw, m_star=ms)
            g2 = xo.estimate_minimum_mass(arg_P, x, v2, **okw)
        sc1 = np.max(np.abs(v1))
        rec.close("orbit", g1, K, 1e-14 * cond * sc1 + 1e-8 * sc1)
        true = mp * np.sin(inc) / M_J
        rel = np.max(np.abs(v2)) * 1e-14 * cond / np.abs(
            np.asarray(xo.estimate_semi_amplitude(arg_P, x, v2, **kw)))
        # first order in the mass ratio
        rec.close("orbit-mass", g2.to(u.M_jup).value, true,
                  true * (5e-4 + 1e-6 * sc1 / sc1 + mp / ms + rel))
