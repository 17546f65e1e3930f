"""Observation points around the native kernels and the rewriting engine

The harness wraps the ``perform`` methods of the three operators of
exoplanet-core that exoplanet hands its tensors to.  Every call is an event:
who was called, with how many elements, and whether the arguments respect the
domain of the kernel.  Nothing in the tree under test is changed for this.
"""

import numpy as np

from exoplanet_core.pymc import ops as core_ops

CURRENT = {"rec": None, "log": None}


def _note(name, inputs):
    rec = CURRENT["rec"]
    if rec is None:
        return
    rec.events["kernel:" + name] += 1
    rec.events["kernel-elements:" + name] += int(np.size(inputs[0]))
    log = CURRENT["log"]
    if log is not None:
        log.append((name, [np.array(i) for i in inputs]))


def _wrap(cls, name):
    orig = cls.perform
    if getattr(orig, "_vmon", False):
        return

    def perform(self, node, inputs, outputs, *args, **kwargs):
        _note(name, inputs)
        return orig(self, node, inputs, outputs, *args, **kwargs)

    perform._vmon = True
    cls.perform = perform


_wrap(core_ops.Kepler, "kepler")
_wrap(core_ops.QuadSolutionVector, "quad_solution_vector")
_wrap(core_ops.ContactPoints, "contact_points")


class observe:
    """Route the events to ``rec``; keep the arguments if ``keep``"""

    def __init__(self, rec, keep=False):
        self.rec = rec
        self.keep = keep

    def __enter__(self):
        self.prev = dict(CURRENT)
        CURRENT["rec"] = self.rec
        self.log = CURRENT["log"] = [] if self.keep else None
        return self

    def __exit__(self, *exc):
        CURRENT.update(self.prev)
