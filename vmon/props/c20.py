"""Gradients are finite and are the derivatives of what is returned

RULE: a case is one orbit or light curve graph (Keplerian with any
parameterisation, given by a duration, with transit timing variations, or
simple); an execution evaluates the gradient of a random weighting of the
outputs with respect to every parameter and the times, and compares its
projection on random directions with Ridders-extrapolated difference quotients
of the same outputs; non-trivial when the directional derivative is not zero.
"""

import numpy as np

from vmon import gen, hooks, ref, ref_lc
from vmon.env import pt, pytensor, xo
from vmon.lib import KO, fn

CASES = {"quick": 420, "thorough": 12000}
MIN = {"direction": 400, "finite": 1200, "kind:kepler": 40, "kind:ttv": 10,
       "kind:duration": 10, "kind:simple": 6, "what:flux": 25,
       "what:position": 15, "what:velocity": 4, "what:rv": 6,
       "what:separation": 5, "what:delayed": 4, "special": 20,
       "dimmed-sample": 40,
       "what:acceleration": 4, "what:eclipse": 10, "occulted-sample": 5,
       "unlisted": 4, "own-period": 1, "anomaly": 300, "anomaly-slope": 600, "apsis": 60}
ASSUMPTIONS = [
    "differentiability: no sample within 1e-3 R_star of a contact, of the "
    "centre of the star or of b = k, within 1e-2 rad of apastron (eccentric "
    "orbits) or next to the boundary between two labelled transits",
]


def ridders(f, h0):
    """f(h) -> derivative at zero, error estimate"""
    n = 9
    A = np.zeros((n, n))
    best, err = np.nan, np.inf
    h = h0
    for k in range(n):
        A[0, k] = (f(h) - f(-h)) / (2 * h)
        fac = 1.0
        for j in range(1, k + 1):
            fac *= 1.96
            A[j, k] = (A[j - 1, k] * fac - A[j - 1, k - 1]) / (fac - 1)
            e = max(abs(A[j, k] - A[j - 1, k]),
                    abs(A[j, k] - A[j - 1, k - 1]))
            if e <= err:
                best, err = A[j, k], e
        if k > 2 and abs(A[k, k] - A[k - 1, k - 1]) > 4 * err:
            break
        h /= 1.4
    return best, err


def steps(kw, o, n):
    """natural size of a step in every parameter"""
    s = {}
    for k, v in kw.items():
        v = np.asarray(v, dtype=float)
        if k == "ecc":
            s[k] = np.minimum(v, 1 - v)
        elif k in ("omega", "Omega", "incl", "b", "sin_omega", "cos_omega"):
            s[k] = np.ones(v.shape)
        elif k in ("t0", "t_periastron"):
            s[k] = np.min(np.atleast_1d(ref.f64(o.period))) * np.ones(v.shape)
        else:
            s[k] = np.abs(v)
    return s


def kepler(rec, rng, special, i):
    force = dict(style="sym", tbig=False, emax=0.8, min_sep=2.0, bmax=0.9,
                 pmax=300.0)
    ttv = not special and i % 4 == 0
    if ttv:
        force.update(n=gen.pick(rng, [1, 2]))
    spec = gen.Spec(rng, **force)
    kw, o = spec.draw(rng)
    fixed = dict(m_planet=None) if spec.mass == "None" else {}
    if special:
        for k in list(kw):
            u = rng.random()
            if k == "b" and u < 0.4:
                kw[k] = kw[k] * 0
            elif k == "m_planet" and u < 0.5:
                kw[k] = kw[k] * 0
            elif k == "ecc" and u < 0.5:
                kw[k] = kw[k] * 0
            elif k == "incl" and u < 0.5:
                kw[k] = kw[k] * 0 + np.pi / 2
    n = 1 if spec.n is None else spec.n
    P = np.broadcast_to(ref.f64(o.period), o.shape).reshape(-1)
    P = np.broadcast_to(P, (n,))
    t0 = np.broadcast_to(ref.f64(o.t0), o.shape or (1,)).reshape(-1)
    cls, lists = KO, None
    syms = spec.symbols(kw)
    inputs, vals = list(syms.values()), list(kw.values())
    sizes = list(steps(kw, o, n).values())
    args = dict(syms, **fixed)
    edges = None
    if ttv:
        cls = xo.orbits.TTVOrbit
        if spec.epoch == "none":
            t0 = np.zeros(n)
        if spec.size == "a":
            return None
        m = [int(rng.integers(3, 8)) for _ in range(n)]
        # not every transit has to be listed
        gaps = rng.random() < 0.5
        ids = [np.arange(q) for q in m]
        if gaps:
            ids = [np.sort(rng.choice(q + 4, q, replace=False)) for q in m]
            args["transit_inds"] = ids
        tt = [0.01 * p * rng.uniform(-1, 1, q) for p, q in zip(P, m)]
        lists = [pt.dvector("tt%d" % j) for j in range(n)]
        times = rng.random() < 0.5 and "t_periastron" not in kw
        if times:
            # the labels replace the ephemeris
            drop = ["t0"] if "t0" in kw else []
            if "period" in kw and "a" not in kw and rng.random() < 0.6:
                drop.append("period")
                if rng.random() < 0.6:
                    dl = (pt.dscalar if rng.random() < 0.5 else pt.dvector)(
                        "delta_log_period")
                    args["delta_log_period"] = dl
                    inputs.append(dl)
                    vals.append(rng.normal(size=() if dl.ndim == 0 else n)
                                * 0.02)
                    sizes.append(0.1 + 0 * vals[-1])
                    rec.event("own-period")
            for key in drop:
                j = [str(v) for v in inputs].index(str(syms[key]))
                for q in (inputs, vals, sizes):
                    q.pop(j)
                args.pop(key)
            tt = [t0[j] + P[j] * ids[j] + tt[j] for j in range(n)]
            args["transit_times"] = lists
        else:
            args["ttvs"] = lists
            if "t_periastron" in kw:
                return None
        centers = []
        for j in range(n):
            if times:
                b, a = np.polyfit(ids[j], tt[j], 1)
                c = a + b * np.arange(ids[j].max() + 1)
                c[ids[j]] = tt[j]
            else:
                c = P[j] * np.arange(ids[j].max() + 1) + (
                    0 if spec.epoch == "none" else t0[j])
                c[ids[j]] += tt[j]
            centers.append(c)
        rec.event("unlisted", int(gaps))
        inputs += lists
        vals += tt
        sizes += [0.05 * P[j] * np.ones(m[j]) for j in range(n)]
        edges = centers
    rec.event("kind:" + ("ttv" if ttv else "kepler"))
    rec.ctx["config"] = dict(spec.describe(), ttv=ttv)

    def build():
        return cls(**args)

    return dict(build=build, inputs=inputs, vals=vals, sizes=sizes, P=P,
                t0=t0, n=n, scalar=spec.n is None, ecc=spec.ecc != "none",
                centers=edges, R=float(o.r_star), full=True)


def duration(rec, rng):
    n = gen.pick(rng, [None, 1, 2])
    sz = () if n is None else (n,)
    V = pt.dscalar if n is None else pt.dvector
    P = np.exp(rng.uniform(0, 5, sz))
    v = dict(period=P, duration=P * np.exp(rng.uniform(-4, -2, sz)),
             ror=rng.uniform(0.02, 0.2, sz), b=rng.uniform(0.05, 0.8, sz),
             t0=rng.uniform(-20, 20, sz))
    if rng.random() < 0.5:
        v["m_planet"] = 10 ** rng.uniform(-6, -3, sz)
    syms = {k: V(k) for k in v}
    if rng.random() < 0.6:
        v["r_star"] = np.asarray(rng.uniform(0.3, 3))
        syms["r_star"] = pt.dscalar("r_star")
    rec.event("kind:duration")
    rec.ctx["config"] = dict(kind="duration", n=n, given=list(v))
    return dict(build=lambda: KO(**syms), inputs=list(syms.values()),
                vals=list(v.values()),
                sizes=[np.abs(np.asarray(x)) + (k == "b") +
                       (k == "t0") * np.min(P) for k, x in v.items()],
                P=np.atleast_1d(P), t0=np.atleast_1d(v["t0"]), n=n or 1,
                scalar=n is None, ecc=False, centers=None,
                R=float(v.get("r_star", 1.0)), full=True)


def simple(rec, rng):
    n = gen.pick(rng, [None, 1, 2])
    sz = () if n is None else (n,)
    V = pt.dscalar if n is None else pt.dvector
    P = np.exp(rng.uniform(0, 5, sz))
    v = dict(period=P, duration=P * np.exp(rng.uniform(-4, -1.5, sz)),
             ror=rng.uniform(0.02, 0.2, sz), b=rng.uniform(0.05, 0.8, sz),
             t0=rng.uniform(-20, 20, sz))
    syms = {k: V(k) for k in v}
    v["r_star"] = np.asarray(rng.uniform(0.3, 3))
    syms["r_star"] = pt.dscalar("r_star")
    rec.event("kind:simple")
    rec.ctx["config"] = dict(kind="simple", n=n)
    return dict(build=lambda: xo.orbits.SimpleTransitOrbit(**syms),
                inputs=list(syms.values()), vals=list(v.values()),
                sizes=[np.abs(np.asarray(x)) + (k == "b") +
                       (k == "t0") * np.min(P) for k, x in v.items()],
                P=np.atleast_1d(P), t0=np.atleast_1d(v["t0"]), n=n or 1,
                scalar=n is None, ecc=False, centers=None,
                R=float(v["r_star"]), full=False)


def true_anomaly(M, e):
    s, c, _ = ref.kepler(M, e)
    return np.arctan2(s, c)


def anomaly(rec, rng):
    """the true anomaly and its derivatives, apsides included"""
    M, e = pt.dvector("M"), pt.dvector("e")
    with rec.product("build"):
        f = xo.orbits.get_true_anomaly(M, e)
        g = pytensor.grad(pt.sum(f), [M, e])
    with rec.product("compile"):
        F = fn(rng, [M, e], [f] + g, mode="plain")
    N = 12
    ev = np.where(rng.random(N) < 0.2, 0.0, rng.uniform(0, 0.95, N))
    Mv = rng.uniform(-10, 10, N)
    q = rng.random(N)
    Mv = np.where(q < 0.5, np.round(Mv / np.pi) * np.pi, Mv)
    Mv = np.where(q < 0.2, Mv + 10.0 ** rng.uniform(-12, -2, N), Mv)
    with rec.product("evaluate"), hooks.observe(rec):
        fv, gM, ge = F(Mv, ev)
    want = ref.f64(true_anomaly(Mv, ev))
    m = np.abs(Mv - 2 * np.pi * np.round(Mv / (2 * np.pi)))
    # the native solver returns pi next to apastron
    slow = np.where(m > np.pi - 1e-4, 1e-4, 0) * 60
    rec.close("anomaly", np.angle(np.exp(1j * (fv - want))), 0 * fv,
              1e-9 / (1 - ev) ** 2 + slow, M=Mv, e=ev)
    c, s_ = np.cos(want), np.sin(want)
    dM = (1 + ev * c) ** 2 / (1 - ev**2) ** 1.5
    de = s_ * (2 + ev * c) / (1 - ev**2)
    rec.close("anomaly-slope", gM, dM, 1e-8 * dM / (1 - ev) ** 3
              + slow * (dM + 1), M=Mv, e=ev)
    rec.close("anomaly-slope", ge, de, 1e-8 / (1 - ev) ** 4
              + slow * 3 / (1 - ev**2), M=Mv, e=ev)
    rec.event("apsis", np.sum((m == 0) | (m > np.pi - 1e-9)))


def run_case(rec, rng, i):
    if i % 4 == 0:
        anomaly(rec, rng)
    u = (i % 16) / 16.0
    special = False
    if u < 0.68:
        special = i % 4 != 0 and rng.random() < 0.4
        S = kepler(rec, rng, special, i)
        if S is None:
            return run_case(rec, rng, i)
    elif u < 0.87:
        S = duration(rec, rng)
    else:
        S = simple(rec, rng)
    n, P, t0 = S["n"], S["P"], S["t0"]
    opts = ["position", "flux", "flux", "separation"]
    if S["full"]:
        opts += ["position", "velocity", "acceleration", "rv", "rv", "flux",
                 "delayed"]
        if S["centers"] is None:
            opts += ["eclipse", "eclipse"]
    what = gen.pick(rng, opts)
    rec.event("what:" + what)
    rec.event("special", special)
    rec.ctx["what"] = what
    N = 4
    t = pt.dvector("t")
    W = pt.tensor("W", dtype="float64", shape=(None,) * (2 if not
                                                         S["scalar"] else 1))
    extra, evals, esizes = [], [], []
    k = rng.uniform(0.03, 0.2, n)
    texp = None
    second = False
    with rec.product("build"):
        o = S["build"]()
        rel = o.get_relative_position(t)
        if what == "position":
            body = gen.pick(rng, ["relative", "planet", "star"]) if S[
                "full"] else "relative"
            outs = list(getattr(o, "get_%s_position" % body)(t))
        elif what == "delayed":
            body = gen.pick(rng, ["relative", "planet", "star"])
            outs = list(getattr(o, "get_%s_position" % body)(
                t, light_delay=True))
        elif what in ("velocity", "acceleration"):
            body = gen.pick(rng, ["relative", "planet", "star"])
            outs = list(getattr(o, "get_%s_%s" % (body, what))(t))
        elif what == "rv":
            if rng.random() < 0.5:
                K = (pt.dscalar if S["scalar"] else pt.dvector)("K")
                extra, evals = [K], [10 * (1 + rng.random(
                    () if S["scalar"] else n))]
                esizes = [np.abs(evals[0])]
                outs = [o.get_radial_velocity(t, K=K)]
            else:
                outs = [o.get_radial_velocity(t)]
        elif what == "separation":
            if S["full"]:
                outs = [o.get_relative_angles(t)[0]]
            else:
                outs = [pt.sqrt(rel[0] ** 2 + rel[1] ** 2)]
        else:
            r = (pt.dscalar if S["scalar"] else pt.dvector)("r")
            uu = pt.dvector("u")
            kR = k * S["R"]
            extra = [r, uu]
            evals = [kR[0] if S["scalar"] else kR,
                     np.array(ref_lc.kipping(rng))]
            esizes = [np.abs(evals[0]), 0.3 * np.ones(2)]
            kwl = {}
            if rng.random() < 0.35:
                texp = float(np.min(P) * 10 ** rng.uniform(-4, -2.5))
                kwl = dict(texp=texp, oversample=3,
                           order=int(rng.integers(3)))
            kwl["use_in_transit"] = gen.pick(rng, [True, False])
            uarg = uu if what == "flux" and rng.random() < 0.5 else None
            if what == "eclipse":
                sb = pt.dscalar("sb")
                extra.append(sb)
                evals.append(np.asarray(rng.uniform(0.1, 2)))
                esizes.append(np.asarray(1.0))
                star = xo.SecondaryEclipseLightCurve(
                    [uu[0], uu[1]], [0.5 * uu[1], uu[0]], sb)
                # the flux of either body may decide
                what = "flux"
                second = True
            else:
                star = xo.LimbDarkLightCurve(
                    *([uarg] if uarg is not None else [uu[0], uu[1]]))
            outs = [star.get_light_curve(orbit=o, r=r, t=t, **kwl)]
    inputs = S["inputs"] + extra + [t]
    nout = len(outs)
    with rec.product("build"):
        if what == "flux" and S["scalar"]:
            L = pt.sum(W[:, None] * outs[0])
        else:
            L = sum(pt.sum(W * (j + 1.0) * q) for j, q in enumerate(outs))
        g = pytensor.grad(L, inputs, disconnected_inputs="ignore")
    with rec.product("compile"):
        md = "plain" if rng.random() < 0.75 else "auto"
        f = fn(rng, inputs + [W], [L] + outs + list(rel), mode=md)
        fg = fn(rng, inputs + [W], g, mode=md)

    # times
    tv = np.empty(N)
    for s in range(N):
        j = int(rng.integers(n))
        if S["centers"] is not None:
            c = float(rng.choice(S["centers"][j]))
        else:
            c = float(np.broadcast_to(t0, (n,))[j]
                      + P[j] * rng.integers(-3, 4))
        if what in ("flux",):
            tv[s] = c + P[j] * rng.normal() * 0.01
        else:
            tv[s] = c + P[j] * rng.uniform(-0.4, 0.4)
    corners = [0 * k, k, 1 - k, 1 + k] + ([0 * k + 1] if second else [])
    if what == "flux":
        # mostly samples that are dimmed
        cand = np.concatenate([tv] + [
            q + P[j % n] * 10 ** rng.uniform(-4, -1, 12) * rng.choice(
                [-1, 1], 12) for j, q in enumerate(rng.permutation(
                    np.concatenate([np.broadcast_to(t0, (n,)), centers_of(
                        S, rng, n, P, t0)]))[:6])])
        if second:
            cand = np.concatenate([cand, cand + 0.5 * P[0], rng.uniform(
                0, P[0], 60) + t0.flat[0]])
        with rec.product("evaluate"):
            c = f(*S["vals"], *evals, cand, np.zeros(
                (len(cand),) + (() if S["scalar"] else (n,))))
        x2, y2, z2 = (np.asarray(q).reshape(len(cand), n) for q in c[-3:])
        hit = np.any((np.hypot(x2, y2) / S["R"] < 1 + k) & (
            (z2 > 0) | second), axis=1)
        hit = np.flatnonzero(hit)
        if len(hit):
            m = min(3, len(hit))
            tv[:m] = cand[rng.choice(hit, m, replace=False)]
    if special and what not in ("flux", "separation") and rng.random() < 0.5:
        tv[0] = c
    vals = S["vals"] + evals + [tv]
    shape = (N,) if S["scalar"] else (N, n)
    w = rng.normal(size=shape)
    with rec.product("evaluate"), hooks.observe(rec):
        base = f(*vals, w)
    for q in base[1: 1 + nout]:
        q = np.asarray(q)
        want = (N, n) if what == "flux" else shape
        if not rec.check("shape", q.shape == want, got=q.shape, want=want):
            return
    size = max(float(np.max(np.abs(q))) for q in base[1: 1 + nout])
    X, Y, Z = (np.asarray(c, dtype=float).reshape(N, n) for c in base[-3:])
    ok = np.ones((N, n), bool)
    ap = None
    sep = np.hypot(X, Y) / S["R"]
    if what == "flux" or what == "separation":
        margin = 2e-3
        crit = corners
        if texp is not None:
            # every sub-exposure has to stay away as well
            v = np.empty((N, n))
            for sgn in (-1, 1):
                with rec.product("evaluate"):
                    b2 = f(*vals[:-1], tv + sgn * 0.5 * texp, w)
                x2, y2 = (np.asarray(c).reshape(N, n) for c in b2[-3:-1])
                s2 = np.hypot(x2, y2) / S["R"]
                v = np.abs(s2 - sep)
                for c in crit:
                    # no critical value within the swept range
                    ok &= (np.sign(s2 - c) == np.sign(sep - c)) & (
                        np.abs(s2 - c) > margin + 0.3 * v)
        for c in crit:
            ok &= np.abs(sep - c) > margin
        if not S["full"]:
            ok &= np.abs(np.abs(X) / S["R"] - np.abs(
                np.sqrt(np.maximum(0, (1 + vals[2]) ** 2
                                   - (Y / S["R"]) ** 2)))) > margin
        if what == "flux":
            ok &= np.abs(Z) > 1e-6 * np.abs(Z).max()
    # stay away from the wrap of the simple orbit and from apastron
    with rec.product("evaluate"):
        gr = fg(*vals, np.where(ok if not S["scalar"] else ok[:, 0], w, 0)
                if what in ("flux", "separation") else w)
    rec.ctx["inputs"] = [np.asarray(v) for v in vals]
    names = [str(v) for v in inputs]
    for nm, q, v in zip(names, gr, vals):
        q = np.asarray(q)
        rec.check("finite", np.all(np.isfinite(q)) and q.shape
                  == np.shape(v), n=max(q.size, 1), param=nm, got=q)
    rec.seen(repr(rec.ctx["config"]), what, tv, *[np.asarray(v)
                                                  for v in vals],
             nontrivial=size > 0,
             sample=dict(config=rec.ctx["config"], what=what))
    if S["ecc"]:
        # the native solver is not smooth within 1e-4 of apastron; find out
        # from the reference whether one of the times is near it
        ok &= ~near_apastron(rec, S, o, inputs, vals, fn, rng)
    w = np.where(ok if not S["scalar"] else ok[:, 0], w, 0.0)
    if not np.any(w):
        return
    with rec.product("evaluate"):
        gr = fg(*vals, w)
    sizes = S["sizes"] + esizes + [np.min(P) * np.ones(N)]
    base_L = float(f(*vals, w)[0])
    outscale = float(np.sum(np.abs(w))) * size + 1e-300
    if what == "flux":
        outscale = outscale + 1e-3 * float(np.sum(np.abs(w)))
        rec.event("dimmed-sample", np.sum(
            (np.asarray(base[1]) < 0) & ok))
        if second:
            rec.event("occulted-sample", np.sum(
                (np.asarray(base[1]) < 0) & ok & (Z < 0)))
    for _ in range(3):
        d = []
        for q, s in zip(vals, sizes):
            x = rng.normal(size=np.shape(q)) * s
            if rng.random() < 0.4:
                x = x * 0
            d.append(np.asarray(x))
        if not any(np.any(q) for q in d):
            d[-1] = rng.normal(size=N) * sizes[-1]

        def at(h, full=False):
            r_ = f(*[np.asarray(v) + h * q for v, q in zip(vals, d)], w)
            return r_ if full else float(r_[0])

        # shrink the step until nothing moves by more than a little
        h = 0.02
        good = False
        for _ in range(30):
            with rec.product("evaluate"):
                up, dn = at(h, True), at(-h, True)
            move = 0.0
            for a, b, c in zip(up[1:-3], dn[1:-3], base[1:-3]):
                m = np.where(ok.reshape(np.shape(a)), np.maximum(
                    np.abs(a - c), np.abs(b - c)), 0)
                move = max(move, float(np.max(m)) / (size + 1e-300))
            lim = 0.02
            if what in ("flux", "separation"):
                mv = 0.0
                for a in (up, dn):
                    x2, y2 = (np.asarray(c).reshape(N, n)
                              for c in a[-3:-1])
                    s2 = np.hypot(x2, y2) / S["R"]
                    dist = np.min([np.abs(sep - c) for c in
                                   corners], axis=0)
                    mv = max(mv, float(np.max(np.where(
                        ok, np.abs(s2 - sep) / dist, 0))))
                good = mv < 0.15 and np.isfinite(move)
            else:
                good = move < lim
            if good:
                break
            h /= 3.0
        if not good:
            continue
        ana = float(sum(np.sum(q * np.asarray(x)) for q, x in zip(d, gr)))
        mag = float(sum(np.sum(np.abs(q * np.asarray(x)))
                        for q, x in zip(d, gr)))
        # a wrong derivative disagrees at every step size
        found = None
        for fac in (1.0, 0.37, 0.1, 0.03):
            with rec.product("evaluate"):
                num, err = ridders(at, fac * h)
            if not err < 1e-4 * max(abs(num), mag, outscale):
                continue
            tol = 30 * err + 1e-6 * abs(num) + 1e-7 * mag + 1e-9 * outscale
            if found is None or abs(ana - num) < tol:
                found = num, err, tol
            if abs(ana - num) < 0.1 * tol:
                break
        if found is None:
            rec.event("difference-too-noisy")
            continue
        num, err, tol = found
        rec.close("direction", ana, num, tol, h=h, err=err, mag=mag,
                  params={nm: np.asarray(x) for nm, x in zip(names, gr)},
                  direction={nm: x for nm, x in zip(names, d)})


def centers_of(S, rng, n, P, t0):
    if S["centers"] is not None:
        return np.concatenate(S["centers"])
    return np.broadcast_to(t0, (n,)) + P * rng.integers(-3, 4, n)


def near_apastron(rec, S, o, inputs, vals, fn, rng):
    """times for which the mean anomaly is within 2e-2 of pi"""
    with rec.product("apastron"):
        r = fn(rng, inputs, [o.period, o.t_periastron, o.t0],
               mode="plain")(*vals)
    n = S["n"]
    per, tp, t0 = (np.broadcast_to(np.asarray(q, dtype=float), (n,))
                   for q in r)
    tv = np.asarray(vals[-1])[:, None] + np.zeros(n)
    if S["centers"] is not None:
        # time since the labelled transit plus that since the periastron
        for j, c in enumerate(S["centers"]):
            q = np.argmin(np.abs(tv[:, j: j + 1] - c), axis=1)
            tv[:, j] = tv[:, j] - c[q] + t0[j]
    M = 2 * np.pi * (tv - tp) / per
    M = np.abs(M - 2 * np.pi * np.round(M / (2 * np.pi)))
    return M > np.pi - 0.02
