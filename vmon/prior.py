"""Observation of the density that a PyMC model implies for its outputs

The model is observed where a sampler observes it: as a log density over an
unconstrained vector and as deterministic functions of that vector.  Which
hidden variables exist, and how they are transformed, plays no part.
"""

import numpy as np
import pymc as pm

from vmon.env import pt, pytensor
from vmon.lib import PLAIN


class Density:
    def __init__(self, model, outs, mode=PLAIN, jac=True):
        self.model = model
        self.vars = model.value_vars
        ip = model.initial_point(random_seed=1)
        self.shapes = [np.shape(ip[v.name]) for v in self.vars]
        self.sizes = [int(np.prod(s)) for s in self.shapes]
        self.start = np.concatenate(
            [np.ravel(ip[v.name]) for v in self.vars]).astype(float)
        z = pt.dvector("z")
        lp = model.logp(jacobian=True)
        o = model.replace_rvs_by_values([pt.as_tensor(q) for q in outs])
        self.oshapes = None
        rep, a = {}, 0
        for v, s, n in zip(self.vars, self.shapes, self.sizes):
            x = z[a: a + n].reshape(s)
            x = pt.specify_shape(x, v.type.shape).astype(v.dtype)
            rep[v] = x
            a += n
        graphs = pytensor.graph.replace.graph_replace(
            [lp] + list(o), rep, strict=False)
        lp, o = graphs[0], graphs[1:]
        flat = pt.concatenate([pt.flatten(q) for q in o])
        self.f = pytensor.function([z], [lp] + o, mode=mode,
                                   on_unused_input="ignore")
        self.g = pytensor.function(
            [z], pt.grad(lp, z, disconnected_inputs="ignore"), mode=mode,
                                   on_unused_input="ignore")
        self.flat = pytensor.function([z], flat, mode=mode,
                                      on_unused_input="ignore")
        nz = int(sum(self.sizes))
        self.nz = nz
        self.nout = len(self.flat(self.start))
        if jac:
            jac = []
            for k in range(self.nout):
                jac.append(pytensor.grad(flat[k], z,
                                         disconnected_inputs="ignore"))
            self.J = pytensor.function([z], pt.stack(jac), mode=mode,
                                       on_unused_input="ignore")

    def __call__(self, z):
        """log density, outputs"""
        r = self.f(z)
        return float(r[0]), [np.asarray(q) for q in r[1:]]

    def implied(self, z):
        """log density of the outputs (as many as there are dimensions)"""
        lp = float(self.f(z)[0])
        sign, ld = np.linalg.slogdet(self.J(z))
        return lp - ld

    def grad_check(self, rec, rng, z, rule, nan_key=None):
        g = np.asarray(self.g(z))
        if not rec.check(rule + "-finite", np.all(np.isfinite(g)), n=g.size,
                         z=z, got=g, key=nan_key):
            return
        d = rng.normal(size=self.nz)

        def at(h):
            return float(self.f(z + h * d)[0])

        from vmon.props.c20 import ridders
        num, err = ridders(at, 0.01)
        ana = float(g @ d)
        mag = float(np.sum(np.abs(g * d)))
        rec.close(rule, ana, num, 30 * err + 1e-6 * (1 + mag), z=z)


def logit_points(rng, nz, wide):
    z = rng.normal(size=nz) * (1.5 if not wide else 1.0)
    if wide:
        k = rng.random(nz) < 0.6
        z = np.where(k, rng.choice([-1, 1], nz)
                     * rng.choice([5, 15, 30, 36, 37, 45, 200], nz), z)
    return z


def ks(rec, rule, x, cdf, **w):
    """Kolmogorov-Smirnov with a threshold that chance will not reach"""
    x = np.sort(np.ravel(x))
    n = len(x)
    u = cdf(x)
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    # P(D > d) ~ 2 exp(-2 n d^2) < 1e-12
    rec.check(rule, d < np.sqrt(np.log(2e12) / 2 / n), n=1, distance=d,
              samples=n, **w)


def model_of(build):
    with pm.Model() as m:
        outs = build()
    return m, outs
