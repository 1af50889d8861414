import numpy as np


class Invalid(Exception):
    """The case does not satisfy the preconditions of the property."""

    def __init__(self, msg, outcome=None):
        super().__init__(msg)
        self.outcome = outcome


class Violation(Exception):
    def __init__(self, kind, msg, outcome=None):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.outcome = outcome


def compare(name, ref, parts, where, rtol=1e-9, mask=None):
    """parts: [(region, array)] of all ranks against the global array `ref` (component first)."""
    scale = max(1e-3, float(np.abs(ref).max()))
    for rank, (reg, a) in enumerate(parts):
        sl = (slice(None),) + tuple(slice(*x) for x in reg)
        b = ref[sl]
        if a.shape != b.shape:
            raise Violation("shape", "%s of rank %d at %s has shape %s, expected %s" % (name, rank, where, a.shape, b.shape))
        d = np.abs(a - b)
        bad = ~(d <= rtol * scale)
        if bad.any():
            k = np.argwhere(bad)
            i = tuple(k[0])
            raise Violation("differs", "%s of rank %d at %s: %d of %d values differ, first at component %d, local point %s: %r instead of %r"
                            % (name, rank, where, len(k), a.size, i[0], list(map(int, i[1:])), float(a[i]), float(b[i])))


class Stats:
    def __init__(self):
        self.net = {}
        self.steps = 0
        self.switches = 0
        self.sim_steps = 0
        self.digests = []
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.nontrivial = False

    def world(self, o):
        for k, v in o.net.items():
            self.net[k] = self.net.get(k, 0) + v
        self.steps += o.steps
        self.switches += o.switches
        self.digests.append(o.digest)
        self.sim_time += o.now

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def as_dict(self):
        return dict(self.__dict__)
