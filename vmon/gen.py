"""Generator of orbit configurations over every documented parameterisation"""

import numpy as np

from vmon import ref
from vmon.env import pt

TWO_PI = 2 * np.pi


def pick(rng, options, p=None):
    return options[int(rng.choice(len(options), p=p))]


def draw_ecc(rng, size, kind, emax=0.95):
    if kind == "mixed":
        # circular, nearly circular and eccentric orbits side by side
        kinds = rng.choice(["zero", "tiny", "mid", "high"], size=size)
        e = np.array([
            draw_ecc(rng, (), k, emax) for k in np.ravel(kinds)
        ]).reshape(np.shape(kinds))
    elif kind == "zero":
        e = np.zeros(size)
    elif kind == "tiny":
        e = 10 ** rng.uniform(-10, -3, size)
    elif kind == "high":
        e = rng.uniform(min(0.75, emax * 0.8), emax, size)
    else:
        e = rng.uniform(0.0, min(0.9, emax), size)
    return np.asarray(e, dtype=float)


SPECIAL_OMEGA = np.array(
    [0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 1.5 * np.pi, np.pi / 4, 7.0,
     -4.0]
)


def draw_angle(rng, size, special=SPECIAL_OMEGA, p=0.3):
    w = rng.uniform(-np.pi, np.pi, size)
    if rng.random() < 0.1:
        # nothing asks for an angle within one turn
        w = w + 2 * np.pi * rng.integers(-9, 10, size)
    s = rng.choice(special, size=size)
    return np.asarray(np.where(rng.random(size) < p, s, w), dtype=float)


class Spec:
    """A choice of which arguments are given, and how"""

    def __init__(self, rng, **force):
        def c(name, options, p=None):
            val = pick(rng, options, p)
            return force.get(name, val)

        self.n = c("n", [None, 1, 2, 3, 5], [0.3, 0.15, 0.33, 0.17, 0.05])
        self.star = c(
            "star", ["m+r", "m+rho", "r+rho", "rho", "none"],
            [0.4, 0.2, 0.2, 0.1, 0.1],
        )
        self.size = c("size", ["period", "a", "both"], [0.65, 0.2, 0.15])
        self.geom = c("geom", ["b", "incl", "none"], [0.45, 0.4, 0.15])
        self.ecc = c(
            "ecc", ["none", "omega", "sincos"], [0.3, 0.45, 0.25]
        )
        self.epoch = c("epoch", ["t0", "tperi", "none"], [0.6, 0.25, 0.15])
        self.node = c("node", ["none", "given"], [0.5, 0.5])
        self.mass = c("mass", ["none", "zero", "small", "binary", "None"],
                      [0.25, 0.1, 0.35, 0.2, 0.1])
        self.style = c("style", ["sym", "const"], [0.75, 0.25])
        self.emax = force.get("emax", 0.95)
        self.bmax = force.get("bmax", 1.3)
        self.pmin = force.get("pmin", 0.4)
        self.pmax = force.get("pmax", 2000.0)
        self.retro = force.get("retro", True)
        self.tbig = force.get("tbig", True)
        self.min_sep = force.get("min_sep", 1.6)
        self.incl_mode = force.get("incl_mode", None)
        # which per-planet parameters are vectors (if there is a choice)
        self.vec = {}
        for k in ("t0", "t_periastron", "incl", "b", "ecc", "omega", "Omega",
                  "m_planet"):
            self.vec[k] = self.n is not None and (
                force.get("allvec", False) or rng.random() < 0.8
            )
        if self.vec["ecc"] != self.vec["omega"] and rng.random() < 0.5:
            self.vec["omega"] = self.vec["ecc"]
        used = dict(t0=self.epoch == "t0", t_periastron=self.epoch == "tperi",
                    b=self.geom == "b", incl=self.geom == "incl",
                    ecc=self.ecc != "none", omega=self.ecc != "none",
                    Omega=self.node == "given",
                    m_planet=self.mass in ("zero", "small", "binary"))
        # the period may be shared as long as something tells them apart
        self.vec["period"] = self.n is not None and (
            rng.random() < 0.85 or force.get("allvec", False)
            or not any(self.vec[k] for k in used if used[k]))

    def describe(self):
        return dict(
            n=self.n, star=self.star, size=self.size, geom=self.geom,
            ecc=self.ecc, epoch=self.epoch, node=self.node, mass=self.mass,
            style=self.style,
            scalars=[k for k, v in self.vec.items() if not v]
            if self.n is not None else "all",
        )

    def key(self):
        return repr(sorted(self.describe().items(), key=str))

    # -- numbers ----------------------------------------------------------
    def draw(self, rng):
        """(inputs, reference orbit): what is passed and what it describes"""
        n = self.n

        def sz(k):
            return (n,) if (n is not None and self.vec[k]) else ()

        for _ in range(200):
            # the star
            if self.star == "none" and self.size != "both":
                m_star, r_star = 1.0, 1.0
            elif self.star == "rho" and self.size != "both":
                r_star = 1.0
                m_star = float(np.exp(rng.uniform(np.log(0.3), np.log(5))))
            else:
                m_star = float(np.exp(rng.uniform(np.log(0.1), np.log(5))))
                r_star = float(m_star ** rng.uniform(0.6, 1.2)
                               * np.exp(rng.normal(0, 0.2)))
                if self.size == "both" and self.star in ("none", "rho"):
                    r_star = 1.0
            # masses
            if self.mass in ("none", "zero", "None"):
                m_planet = np.zeros(sz("m_planet") if self.mass == "zero"
                                    else ())
            elif self.mass == "small":
                m_planet = 10 ** rng.uniform(-7, -2, sz("m_planet"))
            else:
                m_planet = m_star * rng.uniform(0.02, 1.0, sz("m_planet"))
                if rng.random() < 0.15:
                    # the companion is the heavier of the two
                    m_planet = m_planet * 3
            m_planet = np.asarray(m_planet, dtype=float)
            top = self.pmax
            if top == 2000.0 and rng.random() < 0.1:
                top = 1e6
            period = np.exp(
                rng.uniform(np.log(self.pmin), np.log(top), sz("period"))
            )
            if rng.random() < 0.15:
                period = np.ceil(period)
            period = np.asarray(period, dtype=float)
            a = np.asarray(
                ref.a_from_period(period, m_star + m_planet), dtype=float
            )
            # shape
            if self.ecc == "none":
                ecc = omega = None
                e_, w_ = 0.0, 0.0
            else:
                kind = pick(rng, ["zero", "tiny", "mid", "high", "mixed"],
                            [0.08, 0.08, 0.46, 0.23, 0.15])
                ecc = draw_ecc(rng, sz("ecc"), kind, self.emax)
                omega = draw_angle(rng, sz("omega"))
                e_, w_ = ecc, omega
            if np.any(a * (1 - e_) < self.min_sep * r_star):
                continue
            dcosidb = ((1 + e_ * np.sin(w_)) / (1 - e_**2)) * r_star / a
            if self.ecc == "none":
                dcosidb = r_star / a
            # inclination
            b = incl = None
            if self.geom == "b":
                b = rng.uniform(0, self.bmax, sz("b"))
                if rng.random() < 0.15:
                    b = np.zeros(sz("b"))
                elif self.retro and rng.random() < 0.15:
                    b = -b
                b = np.asarray(b, dtype=float)
                cosi = b * dcosidb
                if np.any(np.abs(cosi) > 0.98):
                    continue
                inc = np.arccos(cosi)
            elif self.geom == "incl":
                u = rng.random()
                if self.incl_mode == "transit" or (
                    self.incl_mode is None and u < 0.4
                ):
                    bb = rng.uniform(0, self.bmax, sz("incl"))
                    d = np.min(dcosidb) if sz("incl") == () else dcosidb
                    if np.any(np.abs(bb * d) > 0.98):
                        continue
                    incl = np.arccos(bb * d)
                elif u < 0.6:
                    incl = np.full(sz("incl"), np.pi / 2)
                elif u < 0.8 and self.retro:
                    incl = rng.uniform(0.05, np.pi - 0.05, sz("incl"))
                elif u < 0.83 and self.retro:
                    # face on
                    incl = np.where(rng.random(sz("incl")) < 0.5, 0.0, np.pi)
                else:
                    incl = rng.uniform(0.05, np.pi / 2, sz("incl"))
                incl = np.asarray(incl, dtype=float)
                if incl.shape == (1,) and sz("incl") == ():
                    incl = incl[0]
                inc = incl
            else:
                inc = np.pi / 2
            # epoch
            mag = pick(rng, [0.0, 1.0, 100.0, 2.45e6 if self.tbig else 10.0,
                             -50.0], [0.15, 0.4, 0.2, 0.1, 0.15])
            k = "t_periastron" if self.epoch == "tperi" else "t0"
            ep = mag + rng.uniform(-1, 1, sz(k)) * (mag != 0.0) * np.min(
                np.atleast_1d(period)
            )
            ep = np.asarray(ep, dtype=float)
            t0 = (ep if self.epoch == "t0" else np.zeros(ep.shape)
                  if self.epoch == "tperi" else np.zeros(()))
            Omega = None
            if self.node == "given":
                Omega = draw_angle(rng, sz("Omega"))
            break
        else:
            raise RuntimeError("generator could not satisfy its constraints")

        kw = {}
        vol = 4 * np.pi * r_star**3 / 3
        rho = m_star / vol * ref.GCC
        if self.size in ("period", "both"):
            kw["period"] = period
        if self.size in ("a", "both"):
            kw["a"] = a
        if self.size == "both":
            if self.star not in ("none", "rho"):
                kw["r_star"] = r_star
        elif self.star == "m+r":
            kw.update(m_star=m_star, r_star=r_star)
        elif self.star == "m+rho":
            kw.update(m_star=m_star, rho_star=rho)
        elif self.star == "r+rho":
            kw.update(r_star=r_star, rho_star=rho)
        elif self.star == "rho":
            kw.update(rho_star=rho)
        if self.geom == "b":
            kw["b"] = b
        elif self.geom == "incl":
            kw["incl"] = incl
        if self.ecc != "none":
            kw["ecc"] = ecc
            if self.ecc == "omega":
                kw["omega"] = omega
            else:
                kw["sin_omega"] = np.sin(omega)
                kw["cos_omega"] = np.cos(omega)
        if self.epoch == "t0":
            kw["t0"] = t0
        elif self.epoch == "tperi":
            kw["t_periastron"] = ep
        if Omega is not None:
            kw["Omega"] = Omega
        if self.mass not in ("none", "None"):
            kw["m_planet"] = m_planet

        ms = m_star
        if self.size == "both":
            ms = 4 * np.pi**2 * a**3 / (ref.G * period**2) - m_planet
        o = ref.Orbit(
            period=period, a=a, ecc=ecc, omega=omega, incl=inc, Omega=Omega,
            t0=t0, m_star=ms, m_planet=m_planet, r_star=r_star,
        )
        if self.epoch == "tperi":
            # the periastron passage that was given fixes the transit
            o.t0 = np.broadcast_to(
                np.asarray(ep, dtype=ref.LD), o.shape
            ) + o.M_tr / o.n
            o.tperi = np.broadcast_to(np.asarray(ep, dtype=ref.LD), o.shape)
        return kw, o

    # -- objects ----------------------------------------------------------
    def symbols(self, kw):
        """one symbolic variable per argument of ``kw``"""
        out = {}
        for k, v in kw.items():
            out[k] = (pt.dvector if np.ndim(v) else pt.dscalar)(k)
        return out

    def constants(self, rng, kw):
        """the same values in the various forms users pass them in"""
        out = {}
        for k, v in kw.items():
            out[k] = as_user_input(rng, v)
        if self.mass == "None":
            out["m_planet"] = None
        return out


def as_user_input(rng, v):
    v = np.asarray(v, dtype=float)
    if v.ndim == 0:
        opts = ["float", "np0", "pt", "npf"]
        if abs(float(v)) < 1e9 and float(v) == int(v):
            opts += ["int", "int", "npint"]
        k = pick(rng, opts)
        if k == "float":
            return float(v)
        if k == "np0":
            return np.array(float(v))
        if k == "npf":
            return np.float64(v)
        if k == "int":
            return int(v)
        if k == "npint":
            return np.int64(int(v))
        return pt.constant(float(v))
    opts = ["list", "np", "pt", "tuple"]
    if np.all(np.abs(v) < 1e9) and np.all(v == np.round(v)):
        opts += ["intlist", "intnp"]
    k = pick(rng, opts)
    if k == "list":
        return [float(i) for i in v]
    if k == "tuple":
        return tuple(float(i) for i in v)
    if k == "np":
        return np.array(v)
    if k == "intlist":
        return [int(i) for i in v]
    if k == "intnp":
        return np.array(v, dtype=np.int64)
    return pt.constant(np.array(v))


def times(rng, o, size, far=True):
    """observation times that reach the special instants of the orbits"""
    P = np.atleast_1d(ref.f64(o.period))
    t0 = np.atleast_1d(ref.f64(o.t0))
    tp = np.atleast_1d(ref.f64(o.tperi))
    P, t0, tp = np.broadcast_arrays(P, t0, tp)
    out = np.empty(size)
    for k in range(size):
        j = int(rng.integers(len(P)))
        u = rng.random()
        m = int(rng.integers(-30, 31))
        if u < 0.35:
            out[k] = t0[j] + P[j] * rng.uniform(-2, 2)
        elif u < 0.5:
            out[k] = t0[j] + m * P[j] + P[j] * rng.normal() * 0.01
        elif u < 0.6:
            out[k] = t0[j] + m * P[j]
        elif u < 0.68:
            out[k] = tp[j] + m * P[j]
        elif u < 0.78:
            out[k] = tp[j] + m * P[j] + P[j] * rng.normal() * 0.01
        elif u < 0.85:
            out[k] = t0[j] + (m + 0.5) * P[j]
        elif u < 0.92 and far:
            out[k] = t0[j] + rng.uniform(-1, 1) * 1e4 * P[j]
        else:
            out[k] = rng.uniform(-100, 100)
    return out


def mode(rng):
    """mostly the graph as it was written, sometimes as PyTensor rewrites it"""
    return pick(rng, ["plain", "FAST_COMPILE", None], [0.65, 0.2, 0.15])


def ttv_lists(rng, o, nmax=12, amp=0.02):
    """(ttvs, transit_inds or None): one vector per planet, in days"""
    P = np.broadcast_to(ref.f64(o.period), o.shape).reshape(-1)
    ttvs, inds = [], []
    gaps = rng.random() < 0.4
    for p in P:
        m = int(rng.integers(2, nmax))
        full = np.arange(m + int(rng.integers(0, 6)))
        if gaps:
            keep = np.sort(rng.choice(full, m, replace=False))
            if rng.random() < 0.5:
                keep[0] = 0
            inds.append(np.unique(keep))
        else:
            inds.append(np.arange(m))
        s = amp * p * 10 ** rng.uniform(-3, 0)
        ttvs.append(s * rng.uniform(-1, 1, len(inds[-1])))
    return ttvs, (inds if gaps else None)


def exposure(rng, durs, P, N, kind):
    """exposure times: none, scalar or one per observation"""
    if kind == "none":
        return 0.0
    hi = 0.2 * np.min(P)
    if kind == "scalar":
        return float(min(np.min(durs) * np.exp(rng.uniform(-4, 1)), hi))
    return np.minimum(np.min(durs) * np.exp(rng.uniform(-5, 1, N)), hi)
