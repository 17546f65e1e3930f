"""Independent occultation photometry: quadrature over stellar annuli.

The light of the star within the annulus of radius rho that a disc of radius k
at the distance b covers is I(rho) * 2 rho theta(rho), where theta is half of
the angle of the arc that lies inside of the disc.  The integral over rho uses
a double exponential rule, which copes with the square-root ends at |b - k|,
b + k and at the limb of the star.
"""

import numpy as np

_h = 0.055
_k = np.arange(-78, 79) * _h
_s = 0.5 * np.pi * np.sinh(_k)
# position in (0, 1) measured from both ends without cancellation
_X0 = 1.0 / (1.0 + np.exp(-2 * _s))
_X1 = 1.0 / (1.0 + np.exp(2 * _s))
_W = _h * 0.5 * np.pi * np.cosh(_k) / (2 * np.cosh(_s) ** 2)


def disc_light(u1, u2):
    return np.pi * (1 - u1 / 3.0 - u2 / 6.0)


def _within(rho_c, u1, u2):
    """light of the star inside of rho_c"""
    m = 1 - np.sqrt(np.clip(1 - rho_c**2, 0, 1))

    def prim(m):
        # integral of 2 (1 - m) (1 - u1 m - u2 m^2) dm
        return (
            2 * (m - m**2 / 2)
            - 2 * u1 * (m**2 / 2 - m**3 / 3)
            - 2 * u2 * (m**3 / 3 - m**4 / 4)
        )

    return np.pi * prim(m)


def occultation(b, k, u1, u2):
    """relative flux - 1 of a star of radius 1 (arrays b, k)"""
    b, k = np.broadcast_arrays(
        np.abs(np.asarray(b, dtype=float)), np.asarray(k, dtype=float)
    )
    shape = b.shape
    b, k = b.ravel(), k.ravel()
    full = np.clip(k - b, 0.0, 1.0)
    out = _within(full, u1, u2)
    lo = np.abs(b - k)
    hi = np.minimum(1.0, b + k)
    some = (hi > lo) & (b > 0) & (k > 0)
    if np.any(some):
        bb, kk = b[some][:, None], k[some][:, None]
        l0, h0 = lo[some][:, None], hi[some][:, None]
        d = h0 - l0
        rho = np.where(_X0 < 0.5, l0 + d * _X0, h0 - d * _X1)
        # 1 - rho and the two factors of the chord, each without cancellation
        one_m = (1 - h0) + d * _X1
        up = (bb + kk - h0) + d * _X1  # b + k - rho
        dn = d * _X0  # rho - |b - k|
        other = np.where(bb >= kk, rho + bb - kk, rho + kk - bb)
        # (k - (rho - b)) (k + (rho - b)) = (k + b - rho) (k - b + rho)
        # for b >= k: k - b + rho = dn;  otherwise (k - b + rho) = other and
        # sin^2 uses (b - k + rho) = dn for the complement
        with np.errstate(all="ignore"):
            s2 = np.clip(up * np.where(bb >= kk, dn, other)
                         / (4 * rho * bb), 0, 1)
            c2 = np.clip(
                np.where(bb >= kk, other, dn) * (rho + bb + kk)
                / (4 * rho * bb), 0, 1,
            )
        theta = 2 * np.arctan2(np.sqrt(s2), np.sqrt(c2))
        mu = np.sqrt(np.clip(one_m * (1 + rho), 0, 1))
        m = 1 - mu
        inten = 1 - u1 * m - u2 * m * m
        out[some] += np.sum(_W * d * inten * 2 * rho * theta, axis=1)
    return (-out / disc_light(u1, u2)).reshape(shape)


def kipping(rng):
    """limb darkening coefficients of a physical star"""
    q = rng.random()
    if q < 0.1:
        return 0.0, 0.0
    if q < 0.2:
        return float(rng.uniform(0, 1)), 0.0
    q1, q2 = rng.random(2)
    s = np.sqrt(q1)
    return float(2 * s * q2), float(s * (1 - 2 * q2))
