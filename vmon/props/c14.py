"""Transit timing variations move the transits to the labelled times

RULE: a case is one TTVOrbit given through its O-C vectors or its transit
times, with or without missing transits, a separate shape period and light
travel time; an execution observes every attribute, the sky position at the
labelled times and the whole trajectory against a Keplerian reference whose
clock is reset at the nearest transit; non-trivial when some offset is not zero.
"""

import numpy as np

from vmon import gen, hooks, ref, ref_lc
from vmon.env import pt, xo
from vmon.lib import fn, same_axes, tol_by_perturbation

CASES = {"quick": 320, "thorough": 6000}
MIN = {"at-transit": 300, "trajectory": 10000, "times": 500, "lsq": 150,
       "gaps": 30, "rv": 1000, "zero-ttv": 300, "in-transit": 1000,
       "lightcurve": 500, "delayed": 500, "shape-period": 20,
       "beyond-the-ends": 300, "unordered": 15, "rejected": 5,
       "shared:period": 3, "shared:t0": 3}
ASSUMPTIONS = [
    "neighbouring transits are separated by less than two periods",
    "timestamps within 1e-9 of the midpoint between two transits may belong "
    "to either",
]


def draw(rng, n, how):
    """(kwargs without the ephemeris, elements)"""
    sz = (n,)
    while True:
        ms = float(rng.uniform(0.3, 2.0))
        rs = float(ms ** 0.9)
        P = np.exp(rng.uniform(np.log(1.0), np.log(80.0), sz))
        t0 = rng.uniform(-30, 60, sz)
        ecc = omega = None
        e, w = np.zeros(sz), np.zeros(sz)
        if how["ecc"] != "none":
            ecc, omega = rng.uniform(0, 0.6, sz), gen.draw_angle(rng, sz)
            e, w = ecc, omega
        mp = 10 ** rng.uniform(-6, -2, sz) if how["mass"] else np.zeros(sz)
        for name, x in (("period", P), ("t0", t0), ("ecc", e), ("omega", w),
                        ("m_planet", mp)):
            if name in how["shared"]:
                x[:] = x[0]
        a = ref.a_from_period(P, ms + mp)
        if np.any(a * (1 - e) < 3.0 * rs):
            continue
        b = rng.uniform(0, 0.9, sz)
        if "b" in how["shared"]:
            b[:] = b[0]
        inc = np.arccos(b * rs / a * (1 + e * np.sin(w)) / (1 - e**2))
        Om = gen.draw_angle(rng, sz) if how["node"] else None
        return dict(ms=ms, rs=rs, P=P, t0=t0, ecc=ecc, omega=omega, mp=mp,
                    b=b, inc=inc, Om=Om)


def reference(v, how, period, t0):
    a = ref.a_from_period(period, v["ms"] + v["mp"])
    e = 0.0 if v["ecc"] is None else v["ecc"]
    w = 0.0 if v["ecc"] is None else v["omega"]
    inc = v["inc"]
    if how["geom"] == "b":
        inc = np.arccos(v["b"] * v["rs"] / a * (1 + e * np.sin(w))
                        / (1 - e**2))
    return ref.Orbit(period=period, a=a, ecc=v["ecc"], omega=v["omega"],
                     incl=inc, Omega=v["Om"], t0=t0, m_star=v["ms"],
                     m_planet=v["mp"], r_star=v["rs"])


def run_case(rec, rng, i):
    if i % 30 == 5:
        rejected(rec, rng)
    n = int(rng.integers(1, 4))
    how = dict(
        n=n, ecc=gen.pick(rng, ["none", "omega", "sincos"]),
        geom=gen.pick(rng, ["b", "incl"]), mass=bool(rng.random() < 0.5),
        node=bool(rng.random() < 0.5),
        given=gen.pick(rng, ["ttvs", "times"]),
        epoch=gen.pick(rng, ["t0", "tperi"], [0.75, 0.25]),
        shape=gen.pick(rng, ["same", "period", "delta"], [0.5, 0.25, 0.25]),
        gaps=bool(rng.random() < 0.5), zero=bool(rng.random() < 0.15),
        form=gen.pick(rng, ["sym", "np", "list"]),
        delay=bool(rng.random() < 0.3),
        # one value for all of the planets
        shared=[q for q in ("period", "t0", "ecc", "omega", "m_planet", "b")
                if rng.random() < 0.15],
    )
    rec.ctx["config"] = how
    v = draw(rng, n, how)
    P, t0 = v["P"], v["t0"]
    # the transits
    inds, ttv = [], []
    for p in P:
        m = int(rng.integers(2, 12))
        if how["given"] == "ttvs" and rng.random() < 0.1:
            m = 1
        full = np.arange(m + int(rng.integers(0, 5)) * how["gaps"])
        ii = np.sort(rng.choice(full, m, replace=False))
        if how["gaps"] and rng.random() < 0.4:
            # the labels say which transit it is, in whatever order
            ii = rng.permutation(ii)
            rec.event("unordered")
        inds.append(ii)
        amp = 0.0 if how["zero"] else 10 ** rng.uniform(-4, -0.6)
        ttv.append(amp * p * rng.uniform(-1, 1, len(ii)))
    times = [t0[j] + P[j] * inds[j] + ttv[j] for j in range(n)]
    kw = dict(m_star=v["ms"], r_star=v["rs"])
    if how["geom"] == "b":
        kw["b"] = v["b"]
    else:
        kw["incl"] = v["inc"]
    if how["ecc"] == "omega":
        kw.update(ecc=v["ecc"], omega=v["omega"])
    elif how["ecc"] == "sincos":
        kw.update(ecc=v["ecc"], sin_omega=np.sin(v["omega"]),
                  cos_omega=np.cos(v["omega"]))
    if how["mass"]:
        kw["m_planet"] = v["mp"]
    if how["node"]:
        kw["Omega"] = v["Om"]
    # the ephemeris that the inputs imply
    if how["given"] == "ttvs":
        kw["period"] = P
        period = eph_P = P
        o = reference(v, how, P, t0)
        if how["epoch"] == "t0":
            kw["t0"] = t0
        else:
            kw["t_periastron"] = ref.f64(o.tperi)
        eph_t0 = t0
        want_ttv = ttv
    else:
        fit = [np.polyfit(inds[j].astype(float), times[j] - times[j].mean(),
                          1) for j in range(n)]
        eph_P = np.array([q[0] for q in fit])
        eph_t0 = np.array([q[1] + times[j].mean()
                           for j, q in enumerate(fit)])
        want_ttv = [times[j] - eph_t0[j] - eph_P[j] * inds[j]
                    for j in range(n)]
        period = eph_P
        if how["shape"] == "period":
            period = eph_P * np.exp(rng.uniform(-0.05, 0.05, n))
            kw["period"] = period
        elif how["shape"] == "delta":
            dlp = rng.uniform(-0.05, 0.05, n)
            kw["delta_log_period"] = dlp
            period = eph_P * np.exp(dlp)
        rec.event("shape-period", how["shape"] != "same")
        o = reference(v, how, period, eph_t0)
    for q in how["shared"]:
        if q in kw and np.ptp(kw[q]) == 0 and (
                q != "period" or how["given"] == "ttvs"):
            kw[q] = gen.as_user_input(rng, kw[q][0])
            rec.event("shared:" + q)
    rec.event("gaps", any(len(q) and q.max() + 1 > len(q) for q in inds))
    rec.ctx["inputs"] = dict(kw, inds=inds, ttv=ttv, times=times)

    # build it
    def conv(x):
        if how["form"] == "np":
            return np.array(x)
        if how["form"] == "list":
            return [q for q in np.asarray(x).tolist()]
        return pt.constant(np.asarray(x))

    t = pt.dvector("t")
    lists = [pt.dvector("l%d" % j) for j in range(n)] if how[
        "form"] == "sym" else None
    src = ttv if how["given"] == "ttvs" else times
    args = dict(kw)
    args["ttvs" if how["given"] == "ttvs" else "transit_times"] = (
        lists if lists is not None else [conv(x) for x in src]
    )
    needs = any(np.any(q != np.arange(len(q))) for q in inds)
    if needs or rng.random() < 0.3:
        cast = gen.pick(rng, [int, float])
        args["transit_inds"] = [conv(q.astype(cast)) for q in inds]
    R = v["rs"]
    k = np.exp(rng.uniform(np.log(2e-2), np.log(0.3), n))
    U = ref_lc.kipping(rng)
    delay = dict(light_delay=True) if how["delay"] else {}
    with rec.product("build"):
        orb = xo.orbits.TTVOrbit(**args)
        out = list(orb.get_relative_position(t, **delay))
        out += list(orb.get_planet_position(t, **delay))
        out += list(orb.get_star_position(t, **delay))
        out += list(orb.get_relative_velocity(t))
        out += [orb.get_radial_velocity(t), orb.in_transit(t, r=k * R)]
        lc = xo.LimbDarkLightCurve(*U)
        out.append(lc.get_light_curve(orbit=orb, r=k * R, t=t,
                                      light_delay=how["delay"]))
        out += [orb.t0, orb.period, orb.ttv_period]
        out += list(orb.ttvs) + list(orb.transit_times)
        out += list(orb.all_transit_times)
    with rec.product("compile"):
        f = fn(rng, (lists or []) + [t], out,
               mode="plain" if rng.random() < 0.7 else "auto")
    for _ in range(2):
        # timestamps
        N = 40
        alltt = []
        for j in range(n):
            q = eph_t0[j] + eph_P[j] * np.arange(inds[j].max() + 1)
            q[inds[j]] = times[j]
            alltt.append(q)
        tv = np.empty(N)
        for s in range(N):
            j = int(rng.integers(n))
            c = float(rng.choice(alltt[j]))
            u = rng.random()
            if u < 0.4:
                tv[s] = c + P[j] * 0.02 * rng.normal()
            elif u < 0.5:
                tv[s] = c
            elif u < 0.8:
                tv[s] = c + P[j] * rng.uniform(-0.5, 0.5)
            elif u < 0.9:
                tv[s] = alltt[j][0] - P[j] * rng.uniform(0, 4)
            else:
                tv[s] = alltt[j][-1] + P[j] * rng.uniform(0, 4)
        with rec.product("evaluate"), hooks.observe(rec):
            got = f(*(src if lists is not None else []), tv)
        same_axes(rec, got[:13], tv, (n,))
        judge(rec, how, got, tv, n, o, v, k, U, alltt, inds, times,
              want_ttv, eph_t0, eph_P, period)
        rec.seen(repr(how), tv, *times,
                 nontrivial=not how["zero"],
                 sample=dict(config=how, inds=inds, ttv=ttv))


def judge(rec, how, got, tv, n, o, v, k, U, alltt, inds, times, want_ttv,
          eph_t0, eph_P, period):
    N = len(tv)
    pos, vel = got[:9], got[9:12]
    rv, idx, lc = got[12:15]
    gt0, gP, gtP = (np.broadcast_to(x, (n,)) if np.ndim(x) < 2 else x
                    for x in got[15:18])
    gttv = got[18: 18 + n]
    gtt = got[18 + n: 18 + 2 * n]
    gall = got[18 + 2 * n:]
    if how["epoch"] == "tperi" and how["given"] == "ttvs":
        # which transit follows a periastron passage is defined up to the
        # period
        sh = np.round((np.broadcast_to(gt0, (n,)) - eph_t0) / eph_P) * eph_P
        eph_t0 = eph_t0 + sh
        times = [x + q for x, q in zip(times, sh)]
        alltt = [x + q for x, q in zip(alltt, sh)]
    big = np.max(np.abs(np.concatenate(times))) + np.max(eph_P) * 20
    te = 2e-13 * big
    # the ephemeris
    name = "lsq" if how["given"] == "times" else "times"
    rec.close(name, np.broadcast_to(gt0, (n,)), eph_t0, 20 * te, what="t0")
    rec.close(name, np.broadcast_to(gtP, (n,)), eph_P, 20 * te,
              what="ttv_period")
    rec.close(name, np.broadcast_to(gP, (n,)), period, 20 * te,
              what="period")
    for j in range(n):
        rec.close("times", gttv[j], want_ttv[j], 40 * te, what="ttvs")
        rec.close("times", gtt[j], times[j], te, what="transit_times")
        rec.close("times", gall[j], alltt[j], 60 * te,
                  what="all_transit_times")
        rec.close("times", gtt[j] - gttv[j],
                  gt0[j] + gtP[j] * inds[j], 4 * te, what="linear ephemeris")
    # the nearest labelled transit
    dt = np.empty((N, n))
    amb = np.zeros((N, n), bool)
    for j in range(n):
        tt = alltt[j]
        edges = 0.5 * (tt[1:] + tt[:-1])
        q = np.searchsorted(edges, tv)
        dt[:, j] = tv - tt[q]
        if len(edges):
            amb[:, j] = np.min(np.abs(tv[:, None] - edges), axis=1) < (
                1e-9 * eph_P[j] + 100 * te)
        rec.counts["beyond-the-ends"] += int(np.sum(
            (tv < tt[0] - 0.5 * eph_P[j]) | (tv > tt[-1] + 0.5 * eph_P[j])))
    W = dt + ref.f64(o.t0)
    extra = (200 * te * np.ones(n)) + 1e-13 * period

    def vec(x):
        return np.reshape(x, (N, n))

    def tol_of(func, scale):
        base = func(W)
        dd = extra
        tols = []
        for c in range(len(base)):
            tols.append(ref.f64(1e-9 * scale))
        for s in (-1, 1):
            sh = func(W + s * dd)
            for c in range(len(base)):
                tols[c] = tols[c] + 2 * np.abs(ref.f64(sh[c] - base[c]))
        return base, tols

    M = (ref.LD(1) * (W - o.t0)) * o.n + o.M_tr
    M = np.abs(M - 2 * ref.PI * np.round(M / (2 * ref.PI)))
    edge = ref.LD("1e-4")
    if how["delay"]:
        edge = edge + 2 * o.n * o.a * (1 + o.e) / ref.C
    snap = (~np.bool_(o.circular)) & (M > ref.PI - edge)
    ok = ~amb & ~np.asarray(snap, bool)
    for jb, body in enumerate(("rel", "planet", "star")):
        s = o.scale(body)
        scale = np.abs(s) * o.a + np.zeros((N, n))

        def func(w):
            w = np.asarray(w, dtype=ref.LD)
            if how["delay"]:
                te_ = emission(o, s, w)
                return tuple(s * c for c in o.rel(te_, planet_times=True))
            return tuple(s * c for c in o.rel(w, planet_times=True))

        base, tols = tol_of(func, scale)
        if how["delay"]:
            vs = np.sqrt(sum(np.asarray(c, float) ** 2
                             for c in o.rel_vel(W, planet_times=True)))
            tols = [q + 4 * ref.f64(np.abs(s)) * vs * 30
                    * ref.f64((o.a * o.n / ref.C) ** 2 * o.a / ref.C)
                    for q in tols]
            # a delay can carry the timestamp across a midpoint
            ok = ok & (np.abs(dt) < 0.45 * eph_P - 4 * ref.f64(o.a)
                       / ref.C) | (ok & beyond(alltt, tv, eph_P, o))
        for c in range(3):
            rec.close("trajectory", vec(pos[3 * jb + c]), ref.f64(base[c]),
                      tols[c], mask=ok, body=body, component="XYZ"[c],
                      t=tv)
        if how["delay"]:
            rec.counts["delayed"] += int(ok.sum())
        if how["zero"] and not how["delay"] and how["shape"] == "same":
            rec.counts["zero-ttv"] += int(ok.sum())
    # velocities and radial velocities follow the same clock
    okv = ~amb & ~np.asarray(snap, bool)
    scale = o.n * o.a / (1 - o.e) + np.zeros((N, n))
    base, tols = tol_of(lambda w: o.rel_vel(w, planet_times=True), scale)
    for c in range(3):
        rec.close("rv", vec(vel[c]), ref.f64(base[c]), tols[c], mask=okv,
                  component="XYZ"[c])
    want = ref.f64(o.frac_star * base[2] * ref.MS_PER_RSUN_DAY)
    rec.close("rv", vec(rv), want,
              tols[2] * ref.f64(o.frac_star) * ref.MS_PER_RSUN_DAY + 1e-12,
              mask=okv)
    # what is seen at the labelled times
    exact = np.abs(dt) < te
    if not how["delay"]:
        X, Y, Z = (vec(c) for c in pos[:3])
        rec.close(
            "at-transit", np.hypot(X, Y),
            np.broadcast_to(v["rs"] * ref.f64(
                o.a * np.cos(o.incl) * (1 - o.e**2)
                / (1 + o.e * np.sin(o.w)) / v["rs"]), (N, n)),
            1e-7 * ref.f64(o.a) + 1e-9, mask=exact & ok)
        rec.check("at-transit", np.all(Z[exact & ok] > 0), what="in front")
    # transits
    X, Y, Z = (ref.f64(c) for c in o.rel(np.asarray(W, dtype=ref.LD),
                                         planet_times=True))
    sep = np.hypot(X, Y)
    R = v["rs"]
    L = R * (1 + k)
    slack = 1e-6 * L + 1e-7 * ref.f64(o.a)
    if not o.circular:
        slack = slack + 1e-4 * ref.f64(o.a) * (np.sin(ref.f64(o.w)) < -0.9)
    inside = np.any((sep < L - slack) & (Z > 0) & ok, axis=1)
    outside = np.all((sep > L + slack) | (Z < 0), axis=1) & np.all(
        ok, axis=1)
    mask = np.zeros(N, bool)
    mask[idx] = True
    rec.check("in-transit", np.all(mask[inside]), n=int(inside.sum()),
              t=tv[inside & ~mask], what="missed")
    rec.check("in-transit", not np.any(mask[outside]), n=int(outside.sum()),
              t=tv[outside & mask], what="spurious")
    if not how["delay"]:
        b = sep / R
        F = ref_lc.occultation(b, k, *U)
        db = 4 * ref.f64(o.a * o.n / np.sqrt(1 - o.e) * 2) * extra / R \
            + 4e-9 * ref.f64(o.a) / R
        ft = 1e-10 + 0 * F
        for s in (-1, 1, 0.3):
            ft = np.maximum(ft, 1e-10 + 2 * np.abs(ref_lc.occultation(
                np.abs(b + s * db), k, *U) - F))
        if not o.circular:
            ft = ft + np.where(np.sin(ref.f64(o.w)) < -0.9,
                               1e-4 * ref.f64(o.a) / R, 0)
        rec.close("lightcurve", lc, np.where(Z > 0, F, 0.0), ft,
                  mask=ok & (np.abs(Z) > 1e-6 * ref.f64(o.a)))


def beyond(alltt, tv, P, o):
    out = np.zeros((len(tv), len(alltt)), bool)
    for j, tt in enumerate(alltt):
        out[:, j] = (tv < tt[0] - 0.01 * P[j]) | (tv > tt[-1] + 0.01 * P[j])
    return out


def emission(o, s, t):
    te = t + 0
    for _ in range(12):
        z = s * o.rel(te, planet_times=True)[2]
        vz = s * o.rel_vel(te, planet_times=True)[2]
        step = (te - t - z / ref.C) / (1 - vz / ref.C)
        te = te - step
        if np.all(np.abs(step) < 1e-14 * (1 + np.abs(te))):
            break
    return te


def rejected(rec, rng):
    for kw in (dict(period=[1.0]), dict(period=[1.0], t0=[0.0])):
        rec.expect_raise("rejected", (ValueError,),
                         lambda: xo.orbits.TTVOrbit(**kw), given=sorted(kw))
