"""Shared pieces of the workloads"""

import numpy as np

from vmon import gen, hooks, ref
from vmon.env import pt, pytensor, xo

KO = xo.orbits.KeplerianOrbit


PLAIN = pytensor.compile.mode.Mode(linker="py", optimizer=None)


def fn(rng, inputs, outputs, mode="auto"):
    if mode == "auto":
        mode = gen.mode(rng)
    if mode == "plain":
        mode = PLAIN
    return pytensor.function(
        inputs, outputs, mode=mode, on_unused_input="ignore"
    )


class System:
    """One configuration of an orbit driven through the public API

    ``outs(orbit, *extra)`` returns the list of tensors to observe; ``extra``
    are further symbolic inputs (such as the times).  With the symbolic style
    the graph is compiled once and called with many draws, with the constant
    style a new orbit is made for every draw from the forms of input that users
    pass.
    """

    def __init__(self, rec, rng, spec, outs, extra, cls=KO, fixed=None,
                 mode="auto"):
        self.rec, self.rng, self.spec = rec, rng, spec
        self.outs, self.extra, self.cls = outs, extra, cls
        self.fixed = fixed or {}
        self.f = None
        self.mode = mode
        rec.ctx["config"] = spec.describe()

    def _none(self, kw):
        if self.spec.mass == "None":
            kw["m_planet"] = None
        kw.update(self.fixed)
        return kw

    def __call__(self, kw, *vals):
        rec = self.rec
        rec.ctx["inputs"] = {k: np.asarray(v).tolist() for k, v in kw.items()}
        if self.spec.style == "sym":
            if self.f is None:
                with rec.product("build"):
                    self.syms = self.spec.symbols(kw)
                    orbit = self.cls(**self._none(dict(self.syms)))
                    outs = self.outs(orbit, *self.extra)
                with rec.product("compile"):
                    self.f = fn(
                        self.rng, list(self.syms.values()) + self.extra, outs,
                        mode=self.mode,
                    )
            with rec.product("evaluate"), hooks.observe(rec):
                return self.f(*[kw[k] for k in self.syms], *vals)
        with rec.product("build"):
            orbit = self.cls(
                **self._none(self.spec.constants(self.rng, kw))
            )
            outs = self.outs(orbit, *self.extra)
        with rec.product("compile"):
            f = fn(self.rng, self.extra, outs, mode="plain")
        with rec.product("evaluate"), hooks.observe(rec):
            return f(*vals)

    @property
    def ndraws(self):
        return 6 if self.spec.style == "sym" else 2


def same_axes(rec, got, t, bodies):
    """Outputs run over the times, then the bodies unless there is just one
    given by scalars; axes of length one may be dropped, none is added"""
    full = np.shape(t) + tuple(bodies)
    short = [q for q in full if q != 1]
    rec.check(
        "axes", all(np.ndim(g) <= len(full)
                    and [q for q in np.shape(g) if q != 1] == short
                    for g in got),
        n=len(got), got=[np.shape(g) for g in got], want=full,
    )


def tol_by_perturbation(o, func, t, scale, rel=1e-9):
    """Absolute tolerance per element and component of func(t)

    Shifts the time axis by the rounding error of the phase and adds a relative
    part of the natural scale of the quantity.
    """
    d = o.dt_rounding(t)
    shape = np.broadcast_shapes(np.shape(t) + o.shape, d.shape)
    tt = np.asarray(t, dtype=ref.LD)
    tt = (tt[..., None] if o.shape else tt) + np.zeros(shape, dtype=ref.LD)
    base = func(tt)
    out = []
    plus, minus = func(tt + d), func(tt - d)
    p2, m2 = func(tt + 0.4 * d), func(tt - 0.6 * d)
    for k in range(len(base)):
        tol = np.max(
            np.abs([plus[k] - base[k], minus[k] - base[k], p2[k] - base[k],
                    m2[k] - base[k]]), axis=0
        )
        out.append(ref.f64(2 * tol + rel * np.abs(scale)))
    return out
