"""Independent reference physics (numpy, extended precision, no exoplanet).

Conventions of the documentation: X north, Y east, Z towards the observer,
relative position = planet - star, a transit is omega + f = pi / 2 with Z > 0,
an orbit without eccentricity has its angle zero point such that the transit
happens at t0.
"""

import numpy as np

LD = np.longdouble
EPS = np.finfo(np.float64).eps
PI = LD("3.14159265358979323846264338327950288")

# IAU 2015 nominal values and CODATA 2018
GM_SUN = 1.3271244e20  # m^3 / s^2
R_SUN_M = 6.957e8
G_SI = 6.6743e-11
AU_M = 1.495978707e11
C_SI = 299792458.0
DAY = 86400.0
G = GM_SUN * DAY**2 / R_SUN_M**3  # R_sun^3 / M_sun / day^2
GCC = GM_SUN / G_SI * 1e3 / (R_SUN_M * 100) ** 3  # g/cm^3 of M_sun/R_sun^3
AU_PER_RSUN = R_SUN_M / AU_M
C = C_SI * DAY / R_SUN_M  # R_sun / day
MS_PER_RSUN_DAY = R_SUN_M / DAY
GM_EARTH = 3.986004e14
GM_JUP = 1.2668653e17
R_EARTH_M = 6.3781e6
R_JUP_M = 7.1492e7


def kepler(M, e):
    """(sin f, cos f, E) for mean anomaly M and eccentricity e < 1"""
    M = np.asarray(M, dtype=LD)
    e = np.asarray(e, dtype=LD)
    M, e = np.broadcast_arrays(M, e)
    tw = 2 * PI
    Mw = M - tw * np.round(M / tw)
    s = np.where(Mw < 0, LD(-1), LD(1))
    m = np.abs(Mw)
    lo = np.zeros_like(m)
    hi = np.full_like(m, PI)
    E = np.minimum(m + LD("0.85") * e, PI)
    for _ in range(90):
        f = E - e * np.sin(E) - m
        lo = np.where(f <= 0, E, lo)
        hi = np.where(f >= 0, E, hi)
        step = E - f / (1 - e * np.cos(E))
        good = (step > lo) & (step < hi)
        new = np.where(good, step, (lo + hi) / 2)
        if np.all(np.abs(new - E) <= LD("1e-19") * (1 + np.abs(E))):
            E = new
            break
        E = new
    E = s * E
    ce, se = np.cos(E), np.sin(E)
    den = 1 - e * ce
    return np.sqrt(1 - e * e) * se / den, (ce - e) / den, E


def a_from_period(period, mtot):
    return (G * mtot * period**2 / (4 * np.pi**2)) ** (1.0 / 3.0)


def period_from_a(a, mtot):
    return 2 * np.pi * np.sqrt(a**3 / (G * mtot))


class Orbit:
    """A set of independent planets around one star.

    Every element is an array with the common shape ``()`` or ``(n,)``;
    ``ecc`` is None for a circular orbit without a periastron.
    """

    KEYS = (
        "period a ecc omega incl Omega t0 tperi m_star m_planet r_star"
    ).split()

    def __init__(self, **kw):
        shape = np.broadcast_shapes(
            *(np.shape(kw[k]) for k in ("period", "a", "t0", "incl",
                                        "m_planet", "m_star", "ecc",
                                        "omega", "Omega")
              if kw.get(k) is not None)
        )
        self.shape = shape

        def full(x):
            return np.broadcast_to(np.asarray(x, dtype=LD), shape)

        self.circular = kw.get("ecc") is None
        self.period = full(kw["period"])
        self.a = full(kw["a"])
        self.e = full(0.0 if self.circular else kw["ecc"])
        self.w = full(0.0 if self.circular else kw["omega"])
        self.incl = full(kw["incl"])
        Om = kw.get("Omega")
        self.Om = full(0.0 if Om is None else Om)
        self.t0 = full(kw["t0"])
        self.m_star = full(kw["m_star"])
        self.m_planet = full(kw["m_planet"])
        self.r_star = np.asarray(kw["r_star"], dtype=LD)
        self.n = 2 * PI / self.period
        # argument used in the sky projection
        self.w_eff = self.w
        # true anomaly of the transit
        if self.circular:
            # without an argument of periastron, the orbital angle is counted
            # from the ascending node and the transit is at pi / 2
            self.M_tr = np.broadcast_to(PI / 2, shape)
        else:
            self.M_tr = self.mean_anomaly_at(PI / 2 - self.w)
        self.tperi = self.t0 - self.M_tr / self.n
        # an instance of t_peri that was given by the caller is the same epoch
        # modulo the period
        self.mtot = self.m_star + self.m_planet
        self.frac_star = self.m_planet / self.mtot
        self.frac_planet = self.m_star / self.mtot

    def mean_anomaly_at(self, f):
        e = self.e
        E = 2 * np.arctan2(
            np.sqrt(1 - e) * np.sin(f / 2), np.sqrt(1 + e) * np.cos(f / 2)
        )
        return E - e * np.sin(E)

    def anomaly(self, t):
        t = np.asarray(t, dtype=LD)[..., None] if self.shape else np.asarray(
            t, dtype=LD
        )
        M = (t - self.t0) * self.n + self.M_tr
        return kepler(M, self.e)

    def anomaly_at_planet_times(self, t):
        """like anomaly, but t already has one column per planet"""
        M = (np.asarray(t, dtype=LD) - self.t0) * self.n + self.M_tr
        return kepler(M, self.e)

    def _project(self, x, y):
        """orbital plane -> sky for the relative vector planet - star"""
        cw, sw = np.cos(self.w), np.sin(self.w)
        u = cw * x - sw * y  # r cos(omega + f)
        v = sw * x + cw * y  # r sin(omega + f)
        ci, si = np.cos(self.incl), np.sin(self.incl)
        cO, sO = np.cos(self.Om), np.sin(self.Om)
        X = -(cO * u - sO * v * ci)
        Y = -(sO * u + cO * v * ci)
        Z = v * si
        return X, Y, Z

    def rel(self, t, planet_times=False):
        sf, cf, _ = (
            self.anomaly_at_planet_times(t) if planet_times
            else self.anomaly(t)
        )
        r = self.a * (1 - self.e**2) / (1 + self.e * cf)
        return self._project(r * cf, r * sf)

    def rel_vel(self, t, planet_times=False):
        sf, cf, _ = (
            self.anomaly_at_planet_times(t) if planet_times
            else self.anomaly(t)
        )
        K = self.n * self.a / np.sqrt(1 - self.e**2)
        return self._project(-K * sf, K * (cf + self.e))

    def rel_acc(self, t, planet_times=False):
        x, y, z = self.rel(t, planet_times)
        r3 = (x * x + y * y + z * z) ** LD("1.5")
        k = -(self.n**2) * self.a**3 / r3
        return k * x, k * y, k * z

    def scale(self, body):
        return {
            "rel": LD(1),
            "planet": self.frac_planet,
            "star": -self.frac_star,
        }[body]

    def pos(self, body, t):
        s = self.scale(body)
        return tuple(s * c for c in self.rel(t))

    def vel(self, body, t):
        s = self.scale(body)
        return tuple(s * c for c in self.rel_vel(t))

    def acc(self, body, t):
        s = self.scale(body)
        return tuple(s * c for c in self.rel_acc(t))

    def emission_time(self, body, t):
        """t_e with t_e = t + z(t_e) / c, one column per planet"""
        s = self.scale(body)
        t = np.asarray(t, dtype=LD)
        t = t[..., None] + np.zeros(self.shape, dtype=LD) if self.shape else t
        te = t + 0
        for _ in range(60):
            z = s * self.rel(te, planet_times=True)[2]
            vz = s * self.rel_vel(te, planet_times=True)[2]
            g = te - t - z / C
            step = g / (1 - vz / C)
            te = te - step
            if np.all(np.abs(step) < LD("1e-19") * (1 + np.abs(te))):
                break
        return te

    def pos_delayed(self, body, t):
        te = self.emission_time(body, t)
        s = self.scale(body)
        return tuple(s * c for c in self.rel(te, planet_times=True)), te

    # -- rounding of the time axis ---------------------------------------
    def dt_rounding(self, t, factor=16.0, delay=False):
        t = np.asarray(t, dtype=LD)
        t = t[..., None] if self.shape else t
        d = factor * EPS * (
            np.abs(t) + np.abs(self.t0) + np.abs(self.tperi) + self.period
        )
        if not self.circular:
            # the native Kepler solver returns f = pi for every mean anomaly
            # within 3e-5 of apastron
            M = (t - self.t0) * self.n + self.M_tr
            M = np.abs(M - 2 * PI * np.round(M / (2 * PI)))
            # (the times of emission differ from t by the light travel time)
            edge = LD("5e-5")
            if delay:
                edge = edge + 1.5 * self.n * self.a * (1 + self.e) / C
            d = d + np.where(M > PI - edge, LD("5e-5") / self.n, 0)
        return d


def f64(x):
    if isinstance(x, tuple):
        return tuple(f64(i) for i in x)
    return np.asarray(x, dtype=np.float64)
