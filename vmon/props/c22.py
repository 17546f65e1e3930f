"""Eccentricity priors are the published distributions, truncated as asked

RULE: a case is one model with a Kipping (2013b) or Van Eylen et al. (2019)
eccentricity prior (fixed or marginalised, long, short or all periods, one or
several transiting planets, bounds, shapes, sampled or observed
eccentricities); an execution evaluates the joint density at an unconstrained
point, as a sampler does, and compares the density implied for eccentricity
and hyperparameters with the published one; non-trivial when the point is not
the starting point.
"""

import numpy as np
import pymc as pm
from scipy import integrate, special, stats

from vmon import gen
from vmon.env import pt, xo
from vmon.prior import Density, ks, logit_points

CASES = {"quick": 260, "thorough": 6000}
MIN = {"density": 300, "support": 500, "bounded": 60, "observed": 100,
       "impossible": 60, "hyper": 100, "gradient": 200, "start": 80,
       "draws": 4, "draws-support": 8, "kind:kipping": 40, "kind:vaneylen": 40,
       "default-population": 5}
ASSUMPTIONS = [
    "the Van Eylen et al. mixture is judged up to the constant that a sampler "
    "does not need; the Kipping prior is normalised over its bounds",
    "the density is compared where the unconstrained coordinates are within "
    "+-6, and the support is judged up to +-200",
]
D = xo.distributions

KIPPING = {None: ((0.867, 0.044), (3.03, 0.17)),
           True: ((1.12, 0.1), (3.09, 0.3)),
           False: ((0.697, 0.4), (3.27, 0.3))}


def log_trunc_normal(x, mu, sd, lower=0.0, upper=np.inf):
    if not lower <= x <= upper:
        return -np.inf
    z = special.ndtr((upper - mu) / sd) - special.ndtr((lower - mu) / sd)
    return (-0.5 * ((x - mu) / sd) ** 2 - np.log(sd)
            - 0.5 * np.log(2 * np.pi) - np.log(z))


def log_beta(e, a, b, lower, upper):
    z = 0.0
    if lower > 0 or upper < 1:
        z = np.log(special.betainc(a, b, upper) - special.betainc(a, b, lower))
    return (special.xlogy(a - 1, e) + special.xlog1py(b - 1, -e)
            - special.betaln(a, b) - z)


def log_mixture(e, sg, sr, frac):
    hn = np.sqrt(2 / np.pi) / sg * np.exp(-0.5 * (e / sg) ** 2)
    ray = e / sr**2 * np.exp(-0.5 * (e / sr) ** 2)
    return np.log((1 - frac) * hn + frac * ray)


def draw_bounds(rng):
    kind = gen.pick(rng, ["none", "none", "lower", "upper", "both"])
    lo = float(rng.uniform(0.01, 0.4)) if kind in ("lower", "both") else None
    up = float(rng.uniform(0.45, 0.98)) if kind in ("upper", "both") else None
    if kind == "lower" and rng.random() < 0.2:
        lo = 0.0
    return lo, up


def run_case(rec, rng, i):
    which = ["kipping", "vaneylen"][i % 2]
    fixed = bool(rng.random() < 0.5)
    lo, up = draw_bounds(rng)
    kw = {}
    if rng.random() < 0.7 or not fixed:
        kw["fixed"] = fixed
    else:
        fixed = True
    if lo is not None:
        kw["lower"] = lo
    if up is not None:
        kw["upper"] = up
    if which == "kipping":
        pop = gen.pick(rng, [None, True, False])
        if pop is not None:
            kw["long"] = pop
    else:
        pop = bool(rng.random() < 0.5)
        if pop or rng.random() < 0.5:
            kw["multi"] = pop
    rec.event("kind:" + which)
    L, U = lo or 0.0, 1.0 if up is None else up
    bounded = lo is not None or up is not None
    mode = "observed" if rng.random() < 0.3 else "sampled"
    if mode == "observed":
        observed(rec, rng, which, pop, fixed, L, U, bounded, kw)
    else:
        sampled(rec, rng, which, pop, fixed, L, U, bounded, kw)


def hyper_names(which, fixed):
    if fixed:
        return []
    return {"kipping": ["ecc::alpha", "ecc::beta"],
            "vaneylen": ["ecc::sigma_gauss", "ecc::sigma_rayleigh",
                         "ecc::frac"]}[which]


def populations(which, pop):
    """[(key, [(mean, sd) of each hyperparameter])], the published one first"""
    if which == "kipping":
        out = [(None, KIPPING[pop])]
        if pop is None:
            out.append(("kipping13-default-is-long", KIPPING[True]))
        return out
    return [(None, ((0.049, 0.02), (0.26, 0.05),
                    (0.08, 0.08) if pop else (0.76, 0.2)))]


def logp_ecc(which, e, h, L, U):
    """normalised over the support in the case of the beta distribution"""
    if which == "kipping":
        return np.sum(log_beta(e, h[0], h[1], L, U))
    return np.sum(log_mixture(e, *h))


def logp_hyper(which, h, pop):
    lp = 0.0
    for k, (x, (mu, sd)) in enumerate(zip(h, pop)):
        up = 1.0 if which == "vaneylen" and k == 2 else np.inf
        lp += log_trunc_normal(x, mu, sd, 0.0, up)
    return lp


def judge(rec, rule, got, wants, tol):
    """got equals the first of wants; another one is a known deviation"""
    ok = abs(got - wants[0][1]) <= tol
    key = None
    if not ok:
        for k, w in wants[1:]:
            if abs(got - w) <= tol:
                key = k
    elif len(wants) > 1:
        rec.event("default-as-documented")
    rec.check(rule, ok, key=key, got=got, want=wants[0][1], tol=tol)


def sampled(rec, rng, which, pop, fixed, L, U, bounded, kw):
    shape = gen.pick(rng, [None, None, 1, 2, (2,), (2, 2)])
    s = () if shape is None else (shape,) if isinstance(
        shape, int) else tuple(shape)
    n = max(1, int(np.prod(s)))
    if shape is not None:
        kw["shape"] = shape
    init = rng.uniform(L + 0.02 * (U - L), U - 0.02 * (U - L), s)
    given = rng.random() < 0.4
    if given:
        name = "initval"
        if which == "kipping" and bounded and rng.random() < 0.5:
            name = "testval"
        kw[name] = init if s else float(init)
    rec.ctx["config"] = dict(kind=which, kw=kw)
    fun = D.eccentricity.kipping13 if which == "kipping" else \
        D.eccentricity.vaneylen19
    hn = hyper_names(which, fixed)
    with rec.product("build"):
        with pm.Model() as m:
            ecc = fun("ecc", **kw)
    have = set(m.named_vars)
    rec.check("named", {"ecc"} | set(hn) <= have, have=sorted(have))
    with rec.product("build"):
        d = Density(m, [ecc] + [m[q] for q in hn])
    with rec.product("evaluate"):
        lp0, out = d(d.start)
    rec.check("start-finite", np.isfinite(lp0), n=1, got=lp0)
    if given:
        rec.close("start", out[0], init, 1e-9)
    elif bounded:
        rec.close("start", out[0], np.full(s, 0.5 * (L + U)), 1e-9)
    pops = populations(which, pop)
    if len(pops) == 1:
        for q, (mu, _) in zip(out[1:], pops[0][1]):
            rec.close("start", q, mu, 1e-9)

    # unnormalised densities are compared with the start as the reference
    free_const = which == "vaneylen"
    base = {}

    def want(out, p):
        h = [float(q) for q in out[1:]] if hn else [q[0] for q in p]
        w = logp_ecc(which, out[0], h, L, U)
        if hn:
            w += logp_hyper(which, h, p)
        return w

    for q in range(7):
        wide = q >= 5
        z = logit_points(rng, d.nz, wide)
        rec.ctx["z"] = z
        with rec.product("evaluate"):
            lp, out = d(z)
        e = out[0]
        rec.check("support", e.shape == s and np.all(e >= L)
                  and np.all(e <= U) and not (
                      np.isnan(lp) and np.all((e > L) & (e < U))
                      and not hn), n=n, got=e)
        for x in out[1:]:
            rec.check("support", x >= 0 and np.isfinite(x))
        if hn and which == "vaneylen":
            rec.check("support", 0 <= out[3] <= 1)
        if wide:
            continue
        with rec.product("jacobian"):
            v = d.implied(z)
        rec.seen(repr(rec.ctx["config"]), z,
                 sample=dict(config=rec.ctx["config"], z=z))
        ws = [(k, want(out, p)) for k, p in pops]
        if not np.isfinite(ws[0][1]):
            continue
        if free_const:
            if not base:
                base = dict(v=v, w=[w for _, w in ws])
                continue
            got = v - base["v"]
            ws = [(k, w - b) for (k, w), b in zip(ws, base["w"])]
        else:
            got = v
        if bounded:
            rec.event("bounded")
        if hn:
            rec.event("hyper")
        mag = 1 + sum(abs(w) for _, w in ws) + abs(v)
        judge(rec, "density", got, ws, 1e-8 * mag)
        if len(ws) > 1:
            rec.event("default-population")
        with rec.product("gradient"):
            one_sided = bounded and (L == 0.0 or U == 1.0)
            d.grad_check(
                rec, rng, z, "gradient",
                nan_key="kipping13-one-sided-bound-gradient"
                if which == "kipping" and hn and one_sided else None)

    if which == "kipping" and rng.random() < 0.5:
        with rec.product("draw"):
            x = pm.draw(ecc, draws=500, random_seed=int(rng.integers(2**31)))
        rec.check("draws-support", np.all(x >= L) and np.all(x <= U))
        if not hn and len(pops) == 1:
            a, b = [q[0] for q in pops[-1][1]]
            c0, c1 = special.betainc(a, b, L), special.betainc(a, b, U)
            ks(rec, "draws", x.reshape(500, -1)[:, 0],
               lambda t: (special.betainc(a, b, t) - c0) / (c1 - c0))


def observed(rec, rng, which, pop, fixed, L, U, bounded, kw):
    """the eccentricity is computed from other variables or from data"""
    form = gen.pick(rng, ["vector", "scalar", "number"])
    s = () if form != "vector" else (int(rng.integers(1, 4)),)
    n = max(1, int(np.prod(s)))
    fun = D.eccentricity.kipping13 if which == "kipping" else \
        D.eccentricity.vaneylen19
    hn = hyper_names(which, fixed)
    number = float(rng.uniform(L + 0.01 * (U - L), U - 0.01 * (U - L)))
    rec.ctx["config"] = dict(kind=which, kw=kw, observed=form, number=number)
    with rec.product("build"):
        with pm.Model() as m:
            v = pm.Flat("v", shape=s, initval=np.full(s, 0.5 * (L + U))
                        if s else 0.5 * (L + U))
            e = number if form == "number" else v
            fun("ecc", observed=e, **kw)
    with rec.product("build"):
        d = Density(m, [v] + [m[q] for q in hn])
    pops = populations(which, pop)
    base = {}
    nv = n

    def want(out, p):
        h = [float(q) for q in out[1:]] if hn else [q[0] for q in p]
        w = logp_ecc(which, number if form == "number" else out[0], h, L, U)
        if hn:
            w += logp_hyper(which, h, p)
        return w

    where = {str(q.name): k for k, q in enumerate(d.vars)}
    rec.check("named", "v" in where)
    start = sum(d.sizes[: where["v"]])
    for q in range(6):
        z = rng.normal(size=d.nz) * 0.7 + (0 if not hn else d.start)
        z[start: start + nv] = rng.uniform(
            L + 1e-3, U - 1e-3, nv)
        z_bad = z.copy()
        with rec.product("jacobian"):
            out = d(z)[1]
            got = d.implied(z)
        rec.seen(repr(rec.ctx["config"]), z)
        rec.event("observed")
        ws = [(k, want(out, p)) for k, p in pops]
        if not np.isfinite(ws[0][1]):
            continue
        if which == "vaneylen":
            if not base:
                base = dict(v=got, w=[w for _, w in ws])
                continue
            g = got - base["v"]
            ws = [(k, w - b) for (k, w), b in zip(ws, base["w"])]
        else:
            g = got
        mag = 1 + sum(abs(w) for _, w in ws) + abs(got)
        judge(rec, "density", g, ws, 1e-8 * mag)
        if len(ws) > 1:
            rec.event("default-population")
        if form == "number":
            continue
        k = int(rng.integers(nv))
        z_bad[start + k] = gen.pick(rng, [
            -0.1, 1.1, L - 1e-3, U + 1e-3, -5.0, 7.0])
        with rec.product("evaluate"):
            lp = d(z_bad)[0]
        rec.check("impossible", lp == -np.inf, got=lp,
                  eccentricity=z_bad[start: start + nv])
