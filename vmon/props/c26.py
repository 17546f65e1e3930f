"""Citations acknowledge exactly the components that a model used

RULE: a case is a random history of components created inside (or with the
keyword for) one of several models or outside of any; an execution asks for the
acknowledgement of a model, which is parsed and compared with the log of what
was created for that model; non-trivial when at least one component was.
"""

import logging
import re

import numpy as np
import pymc as pm

from vmon import gen
from vmon.env import xo
from exoplanet.citations import get_citations_for_model

CASES = {"quick": 2400, "thorough": 20000}
MIN = {"cited": 800, "none": 50, "defined": 800, "width": 500, "same": 300,
       "keyword": 100, "outside": 100, "other-models": 100,
       "nested": 100}
ASSUMPTIONS = ["lines are at least 40 characters wide"]

CORE = {"exoplanet:joss", "exoplanet:zenodo"}
ALWAYS = {"exoplanet:arviz"}
# what every component is to be credited to
ASTROPY = {"exoplanet:astropy13", "exoplanet:astropy18"}
STARRY = {"exoplanet:luger18", "exoplanet:agol20"}


def kepler(k, kw):
    xo.orbits.KeplerianOrbit(period=3.0 + k, **kw)
    return ASTROPY


def ttv(k, kw):
    xo.orbits.TTVOrbit(period=[3.0], t0=[0.1], ttvs=[np.zeros(4)], **kw)
    return ASTROPY


def simple(k, kw):
    xo.orbits.SimpleTransitOrbit(period=3.0, t0=0.1, b=0.1, duration=0.1)
    return set()


def limb(k, kw):
    xo.LimbDarkLightCurve(0.3, 0.2, **kw)
    return STARRY


def secondary(k, kw):
    xo.SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.1, **kw)
    return STARRY


def quad(k, kw):
    xo.quad_limb_dark("u%d" % k)
    return {"exoplanet:kipping13"}


def k13(k, kw):
    xo.distributions.eccentricity.kipping13("e%d" % k, fixed=bool(k % 2),
                                            **kw)
    return {"exoplanet:kipping13b"}


def v19(k, kw):
    xo.distributions.eccentricity.vaneylen19(
        "e%d" % k, fixed=bool(k % 2), multi=bool(k % 3), **kw)
    return {"exoplanet:vaneylen19"}


def plain(k, kw):
    pm.Normal("x%d" % k)
    return set()


def disk(k, kw):
    xo.unit_disk("a%d" % k, "b%d" % k)
    return set()


ANY = [kepler, ttv, simple, limb, secondary]
KEYWORD = [kepler, ttv, limb, secondary, k13, v19]
INSIDE = ANY + [quad, k13, v19, plain, disk]


class Grab(logging.Handler):
    def __init__(self):
        super().__init__()
        self.n = 0

    def emit(self, record):
        self.n += 1


def ask(rec, model, want, inside, width):
    grab = Grab()
    root = logging.getLogger()
    root.addHandler(grab)
    level = root.level
    root.setLevel(logging.WARNING)
    kw = {} if width is None else dict(width=width)
    try:
        with rec.product("get_citations_for_model"):
            if inside:
                with model:
                    txt, bib = get_citations_for_model(**kw)
            else:
                txt, bib = get_citations_for_model(model=model, **kw)
    finally:
        root.removeHandler(grab)
        root.setLevel(level)
    if not want:
        # nothing or the bare acknowledgement of exoplanet itself
        rec.check("none", (txt, bib) == ("", ""), text=txt)
        rec.check("none", grab.n >= 1, what="a warning")
        return txt, bib
    lines = txt.split("\n")
    w = 79 if width is None else width
    rec.check("width", max(map(len, lines)) <= w, got=max(map(len, lines)),
              want=w)
    flat = " ".join(lines)
    groups = re.findall(r"\\citep\{([^}]*)\}", flat)
    keys = [k.strip() for g in groups for k in g.split(",")]
    rec.check("cited", len(keys) == len(set(keys)), got=keys)
    rec.check("cited", set(keys) == CORE | ALWAYS | want,
              missing=sorted((CORE | ALWAYS | want) - set(keys)),
              extra=sorted(set(keys) - (CORE | ALWAYS | want)))
    defs = re.findall(r"@\w+\s*\{\s*([^,\s]+)\s*,", bib)
    rec.check("defined", sorted(defs) == sorted(set(keys)), cited=keys,
              defined=defs)
    rec.check("defined", bib.count("{") == bib.count("}"))
    rec.check("text", flat.startswith(r"This research made use of")
              and r"\textsf{exoplanet}" in flat)
    return txt, bib


def run_case(rec, rng, i):
    n = int(rng.integers(1, 4))
    models, parents = [], []
    for j in range(n):
        # a nested model is part of its parents
        p = int(rng.integers(j)) if j and rng.random() < 0.4 else None
        parents.append(p)
        if p is None:
            models.append(pm.Model())
        else:
            with models[p]:
                models.append(pm.Model(name="sub%d" % j))
            rec.event("nested")
    want = [set() for _ in range(n)]

    def credit(j, keys):
        while j is not None:
            want[j] |= keys
            j = parents[j]

    log = []
    rec.ctx["history"] = log
    rec.ctx["parents"] = parents
    for k in range(int(rng.integers(0, 9))):
        how = gen.pick(rng, ["inside", "inside", "keyword", "outside",
                             "across"])
        j = int(rng.integers(n))
        if how == "outside":
            part = gen.pick(rng, ANY)
        elif how == "inside":
            part = gen.pick(rng, INSIDE)
        else:
            part = gen.pick(rng, KEYWORD)
        log.append((how, j, part.__name__))
        rec.event("part:" + part.__name__)
        with rec.product(part.__name__):
            if how == "outside":
                part(k, {})
                rec.event("outside")
            elif how == "inside":
                with models[j]:
                    credit(j, part(k, {}))
            elif how == "keyword":
                credit(j, part(k, dict(model=models[j])))
                rec.event("keyword")
            else:
                # in the context of one model but on behalf of another
                with models[int(rng.integers(n))]:
                    credit(j, part(k, dict(model=models[j])))
                rec.event("keyword")
        if rng.random() < 0.3:
            m = int(rng.integers(n))
            ask(rec, models[m], want[m], rng.random() < 0.5, None)
    if n > 1:
        rec.event("other-models", n - 1)
    for j in range(n):
        width = gen.pick(rng, [None, 79, 40, 60, 120, 1000])
        a = ask(rec, models[j], want[j], True, width)
        b = ask(rec, models[j], want[j], False, width)
        rec.check("same", a == b)
        rec.seen(sorted(want[j]), log, width, nontrivial=bool(want[j]),
                 sample=dict(history=log, cited=sorted(want[j])))
