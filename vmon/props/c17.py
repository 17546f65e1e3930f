"""Interpolation on a regular grid is multilinear, up to and including its edges

RULE: a case is one grid (one to four dimensions, uneven spacing, trailing
output dimensions, with and without a fill value); an execution interpolates
at nodes, edges, faces, inside of cells and outside of the grid and compares
with an independent multilinear formula and its derivatives; non-trivial when
some dimension has more than two nodes.
"""

import itertools

import numpy as np

from vmon import gen
from vmon.env import pt, pytensor, xo
from vmon.lib import fn

CASES = {"quick": 500, "thorough": 40000}
MIN = {"inside": 5000, "nodes": 1000, "edges": 500, "outside-fill": 300,
       "outside-extrapolated": 300, "grad-values": 500, "grad-coords": 500,
       "class": 2000, "dims:1": 20, "dims:2": 20, "dims:3": 20, "dims:4": 5,
       "trailing:0": 20, "trailing:1": 20, "trailing:2": 20,
       "fill:none": 20, "fill:nan": 20, "fill:number": 20}
ASSUMPTIONS = ["grids are strictly increasing with at least two nodes"]


def reference(points, values, x):
    """(result, cell, gradient wrt x, magnitude) by the definition, in turn"""
    nd = len(points)
    out = values.astype(np.longdouble)
    cells, fr = [], []
    for d in range(nd):
        g = points[d]
        c = int(np.clip(np.searchsorted(g, x[d], side="right") - 1, 0,
                        len(g) - 2))
        cells.append(c)
        fr.append((np.longdouble(x[d]) - g[c]) / (
            np.longdouble(g[c + 1]) - g[c]))
    sub = out[tuple(slice(c, c + 2) for c in cells)]

    def fold(weights):
        y = sub
        for w in weights:
            y = w[0] * y[0] + w[1] * y[1]
        return y

    res = fold([(1 - f, f) for f in fr])
    mag = np.abs(sub)
    for f in fr:
        mag = np.abs(1 - f) * mag[0] + np.abs(f) * mag[1]
    grads = []
    for d in range(nd):
        h = np.longdouble(points[d][cells[d] + 1]) - points[d][cells[d]]
        grads.append(fold([
            (-1 / h, 1 / h) if e == d else (1 - f, f)
            for e, f in enumerate(fr)]))
    return res, cells, fr, np.stack(grads), mag


def draw_grid(rng, m):
    u = rng.random()
    if u < 0.3:
        return np.linspace(*np.sort(rng.normal(size=2) * 5), m)
    if u < 0.5:
        return np.arange(m) * float(rng.integers(1, 4)) + float(
            rng.integers(-3, 4))
    steps = np.exp(rng.uniform(-3, 3, m))
    return np.cumsum(steps) + rng.normal() * 10


def run_case(rec, rng, i):
    nd = gen.pick(rng, [1, 2, 3, 4], [0.3, 0.35, 0.25, 0.1])
    nt = gen.pick(rng, [0, 1, 2], [0.5, 0.3, 0.2])
    m = [int(rng.integers(2, 7)) for _ in range(nd)]
    trail = [int(rng.integers(1, 4)) for _ in range(nt)]
    points = [draw_grid(rng, k) for k in m]
    fill = gen.pick(rng, [None, None, np.nan, 0.0, 2.5, -1])
    withgrad = bool(nd < 4 and rng.random() < 0.5)
    rec.event("dims:%d" % nd)
    rec.event("trailing:%d" % nt)
    rec.event("fill:" + ("none" if fill is None else "nan"
                         if np.isnan(fill) else "number"))
    values = rng.normal(size=m + trail) * 10 ** rng.uniform(-2, 2)
    lead = gen.pick(rng, [(24,), (24,), (1,), (4, 5)])
    inp = gen.pick(rng, ["np", "list", "sym"])
    rec.ctx["config"] = dict(grid=points, trailing=trail, fill=fill,
                             lead=lead, form=inp)
    vv = pt.tensor("v", dtype="float64", shape=(None,) * (nd + nt))
    xx = pt.tensor("x", dtype="float64", shape=(None,) * (len(lead) + 1))
    pp = [pt.dvector("p%d" % d) for d in range(nd)]
    if inp == "sym":
        args = pp, vv
        inputs = pp + [vv, xx]
    else:
        conv = np.array if inp == "np" else (lambda a: np.asarray(a).tolist())
        args = [conv(p) for p in points], vv if inp == "np" else conv(values)
        inputs = [vv, xx]
    with rec.product("build"):
        y = xo.interp.regular_grid_interp(args[0], args[1], xx,
                                          fill_value=fill)
        y2 = xo.interp.RegularGridInterpolator(
            args[0], args[1], fill_value=fill).evaluate(xx)
        outs = [y, y2]
        W = pt.tensor("W", dtype="float64", shape=(None,) * y.ndim)
        if withgrad:
            outs.append(pytensor.grad(pt.sum(W * y), xx))
        if withgrad and inp != "list":
            outs.append(pytensor.grad(pt.sum(W * y), vv))
    with rec.product("compile"):
        f = fn(rng, inputs + [W], outs,
               mode="plain" if rng.random() < 0.8 else "auto")
    for _ in range(3):
        # coordinates: every kind of place in each dimension
        npt = int(np.prod(lead)) if lead else 1
        x = np.empty((npt, nd))
        for s in range(npt):
            everywhere_in = rng.random() < 0.6
            for d in range(nd):
                g = points[d]
                u = rng.random()
                if u < 0.25:
                    x[s, d] = rng.choice(g)
                elif u < 0.33:
                    x[s, d] = g[0]
                elif u < 0.41:
                    x[s, d] = g[-1]
                elif u < 0.8 or everywhere_in:
                    x[s, d] = rng.uniform(g[0], g[-1])
                elif u < 0.85:
                    x[s, d] = np.nextafter(g[0], -np.inf)
                elif u < 0.9:
                    x[s, d] = np.nextafter(g[-1], np.inf)
                else:
                    L = g[-1] - g[0]
                    x[s, d] = gen.pick(rng, [g[0] - L * rng.random(),
                                             g[-1] + L * rng.random()])
        xin = x.reshape(lead + (nd,))
        w = rng.normal(size=lead + tuple(trail))
        vals = [] if inp != "sym" else list(points)
        with rec.product("evaluate"):
            got = f(*(vals + [values, xin, w]))
        rec.ctx["coords"] = x
        shape = lead + tuple(trail)
        if not rec.check("shape", got[0].shape == shape, got=got[0].shape,
                         want=shape):
            return
        rec.check("class", got[1].shape == shape and np.array_equal(
            got[0], got[1], equal_nan=True), n=got[0].size)
        yv = got[0].reshape((npt,) + tuple(trail))
        gxv = got[2].reshape(npt, nd) if withgrad else None
        wv = w.reshape((npt,) + tuple(trail))
        gv = np.zeros(values.shape, dtype=np.longdouble)
        gm = np.zeros(values.shape)
        for s in range(npt):
            lo = np.array([g[0] for g in points])
            hi = np.array([g[-1] for g in points])
            out = np.any((x[s] < lo) | (x[s] > hi))
            edge = np.any((x[s] == lo) | (x[s] == hi))
            node = all(np.any(x[s, d] == points[d]) for d in range(nd))
            ref, cells, fr, grads, mag = reference(points, values, x[s])
            # rounding of the distance to the node enters through the slope
            eps = 4e-16
            tol = 40 * eps * mag + sum(
                np.abs(grads[d]) * eps * 4 * (
                    abs(x[s, d]) + np.max(np.abs(points[d])))
                for d in range(nd)) + 1e-300
            tol = np.asarray(tol, dtype=float)
            # next to another node the cell of either side may be used
            near = any(
                np.min(np.abs(points[d] - x[s, d])) < 1e-9 * (
                    points[d][-1] - points[d][0]) for d in range(nd))
            if out and fill is not None:
                rec.check("outside-fill", np.array_equal(
                    yv[s], np.full(trail, float(fill)), equal_nan=True),
                    got=yv[s], x=x[s])
            else:
                rule = "outside-extrapolated" if out else "inside"
                rec.close(rule, yv[s], ref.astype(float), tol, x=x[s])
                rec.counts["edges"] += int(edge and not out)
                if node and not out:
                    ind = tuple(int(np.argmax(points[d] == x[s, d]))
                                for d in range(nd))
                    rec.close("nodes", yv[s], values[ind], tol, x=x[s])
                if withgrad and not near:
                    gw = [float(np.sum(wv[s] * g)) for g in grads]
                    gt = [1e-11 * float(np.sum(np.abs(wv[s]) * (
                        np.abs(g)))) + 1e-10 * float(np.sum(
                            np.abs(wv[s]) * mag)) / (
                                points[d][cells[d] + 1]
                                - points[d][cells[d]])
                          for d, g in enumerate(grads)]
                    rec.close("grad-coords", gxv[s], gw, gt, x=x[s])
                for corner in itertools.product((0, 1), repeat=nd):
                    wt = 1.0
                    for d in range(nd):
                        wt = wt * (fr[d] if corner[d] else 1 - fr[d])
                    ix = tuple(cells[d] + corner[d] for d in range(nd))
                    gv[ix] += wt * wv[s]
                    gm[ix] += np.abs(ref * 0 + 1 + float(np.max(np.abs(fr)))
                                     ** nd) * np.abs(wv[s])
        if withgrad and inp != "list":
            rec.close("grad-values", got[3], gv.astype(float),
                      1e-11 * gm + 1e-11 * np.max(gm))
        rec.seen(repr(rec.ctx["config"]), x, values,
                 nontrivial=max(m) > 2,
                 sample=dict(config=rec.ctx["config"], x=x[:3]))
