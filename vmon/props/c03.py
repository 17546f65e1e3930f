"""Masses, sizes and periods of an orbit are mutually consistent

RULE: a case is one choice of which of period, a, m_star, r_star, rho_star and
m_planet are given (every accepted combination, scalar and vector, literal and
symbolic) or one rejected combination; an execution reads back every computed
attribute for random numbers; non-trivial when at least one attribute had to be
computed.
"""

import itertools

import numpy as np

from vmon import gen, ref
from vmon.lib import KO, System

CASES = {"quick": 1600, "thorough": 6000}
MIN = {"kepler3": 500, "density": 400, "barycentre-axes": 500, "echo": 1000,
       "rejected": 100}

ATTRS = ("period", "a", "rho_star", "r_star", "m_star", "m_planet", "m_total",
         "n", "a_star", "a_planet")


def outs(orbit):
    return [getattr(orbit, k) for k in ATTRS]


def reject(rec, rng):
    """combinations that the documentation rules out"""
    v = dict(
        period=float(rng.uniform(1, 50)), a=float(rng.uniform(5, 50)),
        m_star=float(rng.uniform(0.5, 2)), r_star=float(rng.uniform(0.5, 2)),
        rho_star=float(rng.uniform(0.5, 5)), t0=float(rng.normal()),
        t_periastron=float(rng.normal()), b=float(rng.uniform(0, 1)),
        incl=float(rng.uniform(1.4, 1.57)), ecc=float(rng.uniform(0, 0.8)),
        omega=float(rng.uniform(-3, 3)), duration=0.1,
    )
    if rng.random() < 0.3:
        n = int(rng.integers(1, 4))
        v = {
            k: (x if k in ("m_star", "r_star", "rho_star")
                else np.full(n, x))
            for k, x in v.items()
        }
    v["sin_omega"], v["cos_omega"] = np.sin(v["omega"]), np.cos(v["omega"])

    def t(*keys):
        kw = {k: v[k] for k in keys}
        rec.seen("reject", *keys, sample=dict(rejected=keys))
        rec.expect_raise(
            "rejected", ValueError, lambda: KO(**kw), arguments=keys
        )

    # neither period nor a
    t()
    t("m_star", "r_star")
    t("rho_star", "t0", "b")
    # all of period, a and the mass or the density
    for k in ("m_star", "rho_star"):
        t("period", "a", k)
        t("period", "a", "r_star", k)
    t("period", "a", "m_star", "rho_star")
    # under- or overdetermined stars
    for size in ("period", "a"):
        t(size, "m_star", "r_star", "rho_star")
        t(size, "m_star")
        t(size, "r_star")
    # the inclination twice
    t("period", "incl", "b")
    t("period", "incl", "b", "ecc", "omega")
    t("period", "ecc", "omega", "b", "duration")
    t("period", "ecc", "omega", "incl", "duration")
    # a circular orbit with a duration needs the impact parameter
    t("period", "duration")
    # the shape
    t("period", "ecc")
    t("a", "ecc", "b")
    t("period", "ecc", "sin_omega")
    t("period", "ecc", "cos_omega")
    t("period", "ecc", "omega", "sin_omega", "cos_omega")
    # the epoch twice
    t("period", "t0", "t_periastron")
    t("period", "t0", "t_periastron", "ecc", "omega")


COMBOS = list(itertools.product(
    ["period", "a", "both"], ["m+r", "m+rho", "r+rho", "rho", "none"],
    ["none", "zero", "small", "binary", "None"],
))


def run_case(rec, rng, i):
    if i % 25 == 24:
        for _ in range(2):
            reject(rec, rng)
        return
    size, star, mass = COMBOS[int(rng.integers(len(COMBOS)))]
    if i < len(COMBOS):
        size, star, mass = COMBOS[i]
    spec = gen.Spec(rng, size=size, star=star, mass=mass)
    system = System(rec, rng, spec, outs, [])
    for _ in range(system.ndraws):
        kw, o = spec.draw(rng)
        got = system(kw)
        g = dict(zip(ATTRS, got))
        rec.seen(spec.key(), *[np.asarray(x) for x in kw.values()],
                 sample=dict(inputs=kw))
        shape = o.shape

        def full(x):
            return np.broadcast_to(np.asarray(x, dtype=float), shape)

        def rel(rule, a, b, tol=1e-10, scale=0.0, **w):
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                pass
            rec.close(rule, a, b, tol * (np.abs(b) + np.abs(scale)) + 1e-300,
                      **w)

        # what was given comes back
        for k in kw:
            if k in g:
                rel("echo", g[k], kw[k], 1e-13, what=k)
        if "m_planet" not in kw:
            rel("echo", g["m_planet"], 0.0, what="m_planet default")
        if size != "both" and star == "none":
            rel("echo", g["m_star"], 1.0, what="default star")
        if star in ("none", "rho"):
            rel("echo", g["r_star"], 1.0, what="default radius")
        # against the independent description
        for k, w in (("period", o.period), ("a", o.a), ("m_star", o.m_star),
                     ("r_star", o.r_star), ("m_planet", o.m_planet)):
            sc = o.mtot if k == "m_star" else 0.0
            if k in ("period", "a"):
                # (a period that is shared may come back as it was given)
                rel("values", g[k], full(w), 1e-9, what=k)
            else:
                rel("values", g[k], ref.f64(w), 1e-9, ref.f64(sc), what=k)
        # Kepler's third law and the mean density
        rel("kepler3", 4 * np.pi**2 * g["a"] ** 3,
            ref.G * (g["m_star"] + g["m_planet"]) * g["period"] ** 2, 1e-10)
        rel("kepler3", g["n"] * g["period"], 2 * np.pi, what="mean motion")
        rel("density", g["rho_star"],
            g["m_star"] / (4 * np.pi * g["r_star"] ** 3 / 3) * ref.GCC, 1e-10)
        # the barycentric axes
        tot = g["m_star"] + g["m_planet"]
        rel("barycentre-axes", g["m_total"], tot)
        rel("barycentre-axes", g["a_star"] * tot, g["a"] * g["m_planet"])
        rel("barycentre-axes", g["a_planet"] * tot, -g["a"] * g["m_star"])
