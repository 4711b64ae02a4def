"""The battery of samplers: every model, and every model with one more variable observed."""
from aesara.graph.basic import Constant
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType
from aesara.scan.op import Scan

from . import graph as g
from . import models as M
from . import sampler as S


def variants():
    for name in M.MODELS:
        yield name, ()
        for v in M.single_variants(name):
            yield name, v


class Sweep:
    def __init__(self, name, observe):
        self.name, self.observe = name, observe
        self.m = M.get(name, 1, observe)
        self.tag = name + (f" with {', '.join(self.m.label(self.m.rvs[i]) for i in observe)} observed" if observe else "")
        self.b = S.Built(self.m)
        self.v = self.b.view()
        self._cut = {}

    def cut(self, k):
        if k not in self._cut:
            gr = self.v.groups[k]
            outs, ph = self.v.cut(gr, [self.v.step[rv] for rv in gr])
            self._cut[k] = outs, ph, set(g.leaves(outs))
        return self._cut[k]

    def obs_leaves(self, rv):
        v = self.m.obs[rv]
        return set(g.leaves([v]))

    def allowed_leaves(self):
        """Everything a sweep may read, apart from constants and generators."""
        b, m = self.b, self.m
        res = set(b.init.values()) | set(m.data) | set(m.shared) | set(b.parameters()) | set(b.stub_inputs())
        for v in m.obs.values():
            res |= set(g.leaves([v]))
        return res


def rng_leaves(outputs):
    return [v for v in g.leaves(outputs) if isinstance(v.type, RandomType) and not isinstance(v, Constant)]


def build_all(check, func, pred=lambda n, o: True):
    """All the samplers of the battery; failures to build are left to C09."""
    res = []
    for name, observe in variants():
        if not pred(name, observe):
            continue
        try:
            res.append(Sweep(name, observe))
        except Exception as exc:
            check.skip(f"{name} {observe}", func, f"not built: {type(exc).__name__}: {exc}")
    return res


def describe(v):
    return v.name or (str(v.owner.op) if v.owner else str(v))
