"""C16: sampler stages group variables by step in sweep order."""
import random
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, graph_inputs
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType

from aevc import graph as g
from aevc import models as M
from aevc import sampler as S
from aevc.contracts import sampler_contract
from aevc.sweeps import Sweep, build_all, describe

check = Check("C16", "proof")
check.assumptions += [
    "a step is identified by the operator that computes it (`Sampler.stages` is keyed by operators)",
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position",
]
check.trusted += ["aevc/graph.py: flattening of Aesara graphs", "aevc/pyvc.py: symbolic execution of the Python subset used by the methods under contract"]
FS = "aemcmc.types.Sampler.__post_init__"
F = "aemcmc.basic.construct_sampler"


def expected_stages(steps):
    res = []
    for rv, st in steps.items():
        for k, v in res:
            if k == st.owner.op:
                v.append(rv)
                break
        else:
            res.append((st.owner.op, [rv]))
    return res


def stages(tag, sampler, label):
    steps, got = sampler.sample_steps, sampler.stages
    w = {"model": tag, "steps": [(label(rv), str(st.owner.op)) for rv, st in steps.items()],
         "stages": [(str(k), [label(r) for r in v]) for k, v in got.items()]}
    flat = [r for v in got.values() for r in v]
    for rv in steps:
        n = sum(r is rv for r in flat)
        if n != 1:
            raise Refuted(f"{tag}: {label(rv)} appears in {n} stages", w)
    if len(flat) != len(steps):
        raise Refuted(f"{tag}: the stages contain variables that are not sampled", w)
    for k, v in got.items():
        if not v:
            raise Refuted(f"{tag}: a stage without variables", w)
        for r in v:
            if steps[r].owner.op is not k and steps[r].owner.op != k:
                raise Refuted(f"{tag}: {label(r)} is listed under {k} but computed by {steps[r].owner.op}", w)
    want = expected_stages(steps)
    if [k for k, _ in want] != list(got):
        raise Refuted(f"{tag}: the stages are not in sweep order", w)
    for (k, v), v2 in zip(want, got.values()):
        if len(v) != len(v2) or any(a is not b for a, b in zip(v, v2)):
            raise Refuted(f"{tag}: variables within the stage {k} are not in order", w)
    return len(steps)


def sweep_order(sw):
    """No stage reads a result of a later stage (data flow), i.e. the listed order is the sweep's."""
    v, st = sw.v, sw.b.sampler.stages
    ops = list(st)
    for i, k in enumerate(ops):
        gr = list(st[k])
        outs, ph = v.cut(gr, [v.step[rv] for rv in gr])
        L = set(g.leaves(outs))
        for k2 in ops[i + 1:]:
            for r in st[k2]:
                if ph[r] in L:
                    raise Refuted(f"{sw.tag}: the stage of {[sw.m.label(x) for x in gr]} uses the new value of {sw.m.label(r)}, which is listed in a later stage",
                                  {"model": sw.tag}, replayed="structural")
        owners = {sw.b.steps[r].owner for r in gr}
        if len(owners) > 1:
            raise Known("shared-op-stage", f"{sw.tag}: the steps of {[sw.m.label(x) for x in gr]} are listed as one stage") if all(
                isinstance(o.op, RandomVariable) for o in owners) else Refuted(
                f"{sw.tag}: different steps ({[sw.m.label(x) for x in gr]}) are listed in one stage", {"model": sw.tag}, replayed="structural")
    return "data-flow (exact read sets)"


def parameters(sw):
    b, m = sw.b, sw.m
    ps = b.sampler.parameters or {}
    st = b.sampler.stages
    w = {"model": sw.tag, "parameters": {str(k): [describe(x) for x in v] for k, v in ps.items()}}
    for k, v in ps.items():
        if k not in st:
            raise Refuted(f"{sw.tag}: parameters are listed under {k}, which is no stage", w, replayed="structural")
        L = set(g.leaves([b.steps[r] for r in st[k]]))
        for p in v:
            if p not in L:
                raise Refuted(f"{sw.tag}: {describe(p)} is listed as a parameter of a step that does not read it", w, replayed="structural")
            if p in b.init.values() or p.owner is not None:
                raise Refuted(f"{sw.tag}: {describe(p)} is listed as a parameter but is not a free input", w, replayed="structural")
        if len(set(v)) != len(v):
            raise Refuted(f"{sw.tag}: a parameter is listed twice", w, replayed="structural")
    known = set(b.init.values()) | set(m.data) | set(m.shared) | set(b.stub_inputs())
    for o in m.obs.values():
        known |= set(g.leaves([o]))
    for k, v in st.items():
        need = [x for x in g.leaves([sw.v.step[r] for r in v]) if not isinstance(x, (Constant, SharedVariable)) and x not in known and not isinstance(x.type, RandomType)]
        own = []
        for r in v:
            # what the step itself reads: the results of other steps are inputs
            outs, _ = sw.v.cut(list(v), [sw.v.step[r] for r in v])
            own = [x for x in g.leaves(outs) if x in need]
        for x in own:
            if x not in (ps.get(k) or ()):
                raise Refuted(f"{sw.tag}: the step {k} needs the input {describe(x)}, which is not listed as its parameter", w, replayed="structural")
    return "data-flow (exact read sets)"


def step_parameters(sw, n):
    """The parameters are (step size, inverse mass matrix) of the very kernel call."""
    b = sw.b
    cnt = 0
    for c in b.calls:
        (ps,) = [v for k, v in b.sampler.parameters.items()]
        call = sw.v.nuts()[0]
        if tuple(ps) != (call["step_size"], call["inverse_mass"]):
            raise Refuted(f"{sw.tag}: the listed parameters {[describe(p) for p in ps]} are not the kernel's step size and inverse mass matrix in this order", {"model": sw.tag})
        cnt += 2
    return cnt, cnt


class K(type(at.add)):
    """Operators that are different steps even if they compute the same."""

    def __init__(self, tag):
        super().__init__(at.add.scalar_op)
        self.tag = tag

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


def generated(n):
    """Samplers with arbitrary assignments of variables to steps."""
    from aemcmc.types import Sampler

    rng = random.Random(SEED)
    cnt = 0
    for k in range(n):
        nv, ns = rng.randint(0, 7), rng.randint(1, 4)
        ops = [K(i) for i in range(ns)]
        rvs = [at.dvector(f"x{i}") for i in range(nv)]
        steps = {}
        for rv in rvs:
            steps[rv] = rng.choice(ops)(rv, rv)
        s = Sampler(dict(steps))
        stages(f"generated {k}: {[[r.name, o.owner.op.tag] for r, o in steps.items()]}", s, lambda r: r.name)
        if list(s.sample_steps) != list(steps) or any(s.sample_steps[r] is not o for r, o in steps.items()) or s.updates != {} or s.parameters != {}:
            raise Refuted("a sampler's fields are not the given ones", {"steps": str(steps)})
        cnt += nv
    return n, cnt


def two_families():
    """Two closed-form steps of the same family around a third step."""
    s = RandomStream(1)
    a = s.gamma(2.0, 1.0, name="a")
    y = s.poisson(a, name="y")
    b = s.gamma(3.0, 1.0, name="b")
    z = s.poisson(b, name="z")
    m = M.Model("two_gamma_poisson", s, [y, z])
    sw = Sweep.__new__(Sweep)
    sw.name, sw.observe, sw.m, sw.tag, sw._cut = m.name, (), m, m.name, {}
    sw.b = S.Built(m)
    sw.v = sw.b.view()
    sweep_order(sw)
    return 1, 1


sampler_contract(check, FS)
for sw in build_all(check, F):
    check.ob(f"{sw.tag}: stages are in sweep order", F, lambda: sweep_order(sw))
    check.ob(f"{sw.tag}: parameters are the free inputs of their own step", F, lambda: parameters(sw))
    check.replay(f"{sw.tag}: stages", FS, lambda: (stages(sw.tag, sw.b.sampler, sw.m.label),) * 2)
    if sw.b.calls:
        check.replay(f"{sw.tag}: parameters of the kernel", "aemcmc.nuts.construct_sampler", lambda: step_parameters(sw, 1))
check.replay("generated samplers", FS, lambda: generated(2000 if THOROUGH else 300))
check.replay("two closed-form steps of one family", F, two_families)

sys.exit(check.finish())
