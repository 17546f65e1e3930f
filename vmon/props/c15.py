"""The expected transit times are exactly the transits of the window

RULE: a case is a set of planets and observing windows, drawn so that the ends
fall on, just before and just after transits; an execution lists the expected
transits of every planet and compares them with rational arithmetic on the
same numbers; non-trivial when at least one transit is expected.
"""

from fractions import Fraction as Fr

import numpy as np

from vmon import gen
from vmon.env import pytensor, xo

CASES = {"quick": 14000, "thorough": 200000}
MIN = {"complete": 5000, "in-window": 5000, "ephemeris": 5000, "order": 5000,
       "edge-exact": 300, "edge-computed": 300, "one-per-planet": 2000, "empty": 100,
       "ttv-orbit": 50, "shared": 500, "mismatch": 100}
ASSUMPTIONS = [
    "a transit within 4 ulp of an end of the window may be reported or not, "
    "unless t0 + k * period in double precision is inside of the window (it "
    "is reported: a window may end on a transit that was computed this way)",
]


def run_case(rec, rng, i):
    n = int(rng.integers(1, 5))
    exact = rng.random() < 0.35
    scalar = n == 1 and rng.random() < 0.5
    if exact:
        # every product and sum is representable
        P = rng.integers(20, 400, n) / 2.0 ** rng.integers(0, 6)
        t0 = rng.integers(-4000, 4000, n) / 2.0 ** rng.integers(0, 6)
        if rng.random() < 0.2:
            t0 = t0 + 2450000
    else:
        P = np.exp(rng.uniform(np.log(0.1), np.log(3000))
                   + rng.uniform(0, 3, n))
        t0 = rng.normal(size=n) * 10 ** rng.uniform(-1, 4) + gen.pick(
            rng, [0.0, 0.0, 2450000.0])
    # a period or an epoch can be shared by all planets
    share = gen.pick(rng, ["none", "period", "t0"], [0.8, 0.1, 0.1])
    if share == "period":
        P = np.full(n, P[0])
    if share == "t0":
        t0 = np.full(n, t0[0])
    j = int(rng.integers(n))

    def edge():
        k = int(rng.integers(-60, 61))
        u = rng.random()
        x = t0[j] + P[j] * k
        if u < 0.45:
            return float(x)
        if u < 0.55:
            return float(np.nextafter(x, -np.inf))
        if u < 0.65:
            return float(np.nextafter(x, np.inf))
        return float(x + P[j] * rng.uniform(-0.5, 0.5))

    lo, hi = edge(), edge()
    if lo > hi and rng.random() < 0.9:
        lo, hi = hi, lo
    if rng.random() < 0.05:
        hi = lo
    form = gen.pick(rng, ["np", "list", "scalar" if scalar else "np"])
    conv = {"np": np.array, "list": lambda x: [float(q) for q in x],
            "scalar": lambda x: float(x[0])}[form]
    rec.ctx["inputs"] = dict(min_time=lo, max_time=hi, period=P, t0=t0,
                             form=form, shared=share)

    def given(name, x):
        if name != share or n == 1:
            return conv(x)
        rec.event("shared")
        return gen.pick(rng, [float(x[0]), x[:1].copy(), [float(x[0])]])

    keep = P.copy(), t0.copy()
    with rec.product("compute_expected_transit_times"):
        got = xo.orbits.ttv.compute_expected_transit_times(
            lo, hi, given("period", P), given("t0", t0))
    rec.check("one-per-planet", len(got) == n, got=len(got))
    rec.check("inputs-untouched", np.all(P == keep[0]) and np.all(
        t0 == keep[1]))
    if n > 2 and i % 10 == 0:
        # lengths that do not belong together
        bad = (P[:2], t0) if rng.random() < 0.5 else (P, t0[:2])
        try:
            xo.orbits.ttv.compute_expected_transit_times(lo, hi, *bad)
            raised = False
        except Exception:
            raised = True
        rec.check("mismatch", raised, lengths=[len(x) for x in bad])
    total = 0
    for q in range(min(n, len(got))):
        x = np.asarray(got[q], dtype=float)
        p, e = Fr(float(P[q])), Fr(float(t0[q]))
        a, b = Fr(lo), Fr(hi)
        k0 = -((e - a) // p)
        k1 = (b - e) // p
        ulp = 4 * np.finfo(float).eps * (
            abs(t0[q]) + abs(lo) + abs(hi) + P[q])
        want = list(range(int(k0) - 1, int(k1) + 2))
        must, may = [], []
        for k in want:
            ex = e + k * p
            if exact:
                (must.append(k) if a <= ex <= b else None)
                if ex in (a, b) and a <= b:
                    rec.counts["edge-exact"] += 1
                continue
            if min(abs(float(ex - a)), abs(float(ex - b))) <= ulp:
                inside = lo <= float(t0[q]) + float(P[q]) * k <= hi
                rec.counts["edge-computed"] += int(inside)
                (must if inside else may).append(k)
            elif a <= ex <= b:
                must.append(k)
        total += len(must)
        kk = np.round((x - t0[q]) / P[q])
        ks = [int(v) for v in kk]
        rec.check("order", np.all(np.diff(x) > 0) and x.ndim == 1,
                  n=len(x) + 1, planet=q, got=x)
        rec.check("in-window", np.all((x >= lo) & (x <= hi)), n=len(x),
                  planet=q, got=x)
        rec.check("ephemeris", np.all(
            np.abs(x - (t0[q] + P[q] * kk)) <= ulp), n=len(x), planet=q,
            got=x)
        miss = sorted(set(must) - set(ks))
        extra = sorted(set(ks) - set(must) - set(may))
        rec.check("complete", not miss, n=len(must), planet=q, missing=miss)
        rec.check("complete", not extra and len(ks) == len(set(ks)), n=1,
                  planet=q, extra=extra)
        rec.event("empty", not must)
    rec.seen(lo, hi, P, t0, nontrivial=total > 0,
             sample=dict(window=[lo, hi], period=P, t0=t0))
    # what they are for
    if i % 20 == 0 and lo < hi and all(2 <= len(x) < 500 for x in got):
        with rec.product("TTVOrbit"):
            o = xo.orbits.TTVOrbit(transit_times=got)
            out = pytensor.function([], [o.period, o.t0] + list(o.ttvs),
                                    mode="FAST_COMPILE")()
        tol = 1e-11 * (np.abs(lo) + np.abs(hi) + np.max(P))
        rec.close("ttv-orbit", out[0], P, tol * 10)
        rec.close("ttv-orbit", out[1], [x[0] for x in got], tol * 10)
        for x in out[2:]:
            rec.close("ttv-orbit", x, 0 * x, tol * 10)
