"""Prints a digest of the samplers of some models and of their draws (run in its own process)."""
import json
import sys

from aevc.core import SEED
import aesara
import numpy as np

from aevc import graph as g
from aevc import genmodels
from aevc import models as M
from aevc import sampler as S


def digest(m, stub=True, sweeps=2, build_first=0):
    for k in range(build_first):
        pass
    b = S.Built(m, stub=stub)
    d = {}
    d["steps"] = [(m.rvs.index(r), b.kernel(r)) for r in b.steps]
    d["groups"] = [[m.rvs.index(r) for r in x] for x in b.groups()]
    d["init"] = [(m.rvs.index(r), str(v.type)) for r, v in b.init.items()]
    d["stages"] = [[m.rvs.index(r) for r in v] for v in b.sampler.stages.values()]
    d["parameters"] = [[(p.name, str(p.type)) for p in v] for v in b.sampler.parameters.values()]
    d["updates"] = [repr(k.get_value(borrow=True).bit_generator.state) for k in b.sampler.updates]
    d["stream"] = [repr(r.get_value(borrow=True).bit_generator.state) for r, _ in b.srng.updates()]
    vals = m.prior_values(SEED)
    ins = b.inputs() + b.stub_inputs()
    f = aesara.function(ins, list(b.steps.values()), updates=b.sampler.updates, on_unused_input="ignore")
    res = []
    for s in range(sweeps):
        e = b.env(vals, 1e-3)
        n = b.q_size(vals)
        # a mass matrix with different entries: the layout of the position matters
        for p in b.parameters():
            if p.type.ndim == 1:
                e[p] = 1.0 + 0.3 * np.arange(n)
        q = 0.3 * np.random.default_rng(s).normal(size=n) if b.stub_inputs() else None
        e.update({x: q for x in b.stub_inputs()})
        out = f(*[e[i] for i in ins])
        res.append([np.asarray(x).tolist() for x in out])
        vals = dict(vals)
        vals.update(zip(b.steps, out))
    d["draws"] = repr(res)
    return d


if __name__ == "__main__":
    names, gen, real = json.loads(sys.argv[1])
    out = {}
    for n in names:
        out[n] = digest(M.get(n, 7))
    for k in gen:
        out[f"generated_{k}"] = digest(genmodels.generate(k))
    for n in real:
        out[n + " (real kernel)"] = digest(M.get(n, 7), stub=False)
    json.dump(out, open(sys.argv[2], "w"))
