"""C11: sampler updates contain no draw from the model's prior."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType

from aevc import graph as g
from aevc.nutscase import Case, numeric
from aevc.scanview import scan_nodes
from aevc.sweeps import Sweep, build_all, rng_leaves, describe
from aevc import models as M
from aevc import sampler as S

check = Check("C11", "proof")
check.assumptions += [
    "random draws of the model are identified by their generators (Aesara's `RandomStream` gives every model variable a generator of its own)",
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position; its log-density argument is part of the analysed graph",
]
check.trusted += ["aevc/graph.py: flattening of Aesara graphs into the terms the compiled function evaluates"]
F = "aemcmc.basic.construct_sampler"


def everything(sw):
    return list(sw.v.step.values()) + list(sw.v.update.values())


def generators(sw):
    """The model's own generators, and whatever shares their storage."""
    gs = [x for x in sw.m.generators()]
    return set(gs), {id(x.container) for x in gs if isinstance(x, SharedVariable)}


def no_prior_draw(sw):
    gs, cs = generators(sw)
    for r in rng_leaves(everything(sw)):
        if r in gs or (isinstance(r, SharedVariable) and id(r.container) in cs):
            (n,) = [n for n in sw.m.nodes if n.inputs[0] is r or (isinstance(r, SharedVariable) and n.inputs[0].container is r.container)][:1]
            who = [sw.m.label(rv) for rv in sw.v.rvs if r in g.leaves([sw.v.step[rv]])]
            raise Refuted(f"{sw.tag}: the updates of {who} depend on a draw of {sw.m.label(n.outputs[1])} from the model's prior",
                          {"model": sw.tag, "generator of": sw.m.label(n.outputs[1])}, replayed="structural")
    for c in sw.b.calls:
        for r in rng_leaves(g.flatten([c.logp])):
            if r in gs:
                raise Refuted(f"{sw.tag}: the density of the gradient-based step depends on a draw from the model's prior", {"model": sw.tag}, replayed="structural")
    return "data-flow (all leaves)"


def closed(sw):
    ok = sw.allowed_leaves()
    srngs = {r for r, _ in sw.b.srng.updates()} | {r for c in sw.b.calls for r in c.kernel_rngs}
    for rv, st in list(sw.v.step.items()) + list(sw.v.update.items()):
        for v in g.leaves([st]):
            if isinstance(v, Constant) or v in ok:
                continue
            if isinstance(v.type, RandomType):
                if v not in srngs:
                    raise Refuted(f"{sw.tag}: a step uses a generator that does not belong to the stream", {"model": sw.tag}, replayed="structural")
                continue
            raise Refuted(f"{sw.tag}: the update of {describe(rv)} depends on {describe(v)} ({v.type}), which is neither a placeholder, an observation, data nor a parameter",
                          {"model": sw.tag}, replayed="structural")
    return "data-flow (all leaves)"


def independent(sw, n):
    """The sweep's results do not change when the model's own generators are re-seeded, and the
    model's generators are not advanced by a sweep."""
    b, m = sw.b, sw.m
    ins = b.inputs() + b.stub_inputs()
    f = aesara.function(ins, list(b.steps.values()), updates=b.sampler.updates, on_unused_input="ignore")
    gs = [x for x in dict.fromkeys(m.generators()) if isinstance(x, SharedVariable)]
    own = [s for s in f.get_shared() if isinstance(s.get_value(), np.random.Generator) and s not in gs]
    cnt = 0
    for s in range(n):
        vals = m.prior_values(SEED * 10 + s)
        e = b.env(vals)
        q = np.random.default_rng(s).normal(size=b.q_size(vals)) if b.stub_inputs() else None
        e.update({x: q for x in b.stub_inputs()})
        outs = []
        for k in range(2):
            for i, r in enumerate(gs):
                r.set_value(np.random.default_rng([s, k, i]))
            for i, r in enumerate(own):
                r.set_value(np.random.default_rng([s, 99, i]))
            st = [str(r.get_value().bit_generator.state) for r in gs]
            outs.append(f(*[e[i] for i in ins]))
            if st != [str(r.get_value().bit_generator.state) for r in gs]:
                raise Refuted(f"{sw.tag}: a sweep advances the generators of the model", {"model": sw.tag})
        for rv, a, c in zip(b.steps, *outs):
            if not np.array_equal(a, c, equal_nan=True):
                raise Refuted(f"{sw.tag}: the update of {m.label(rv)} changes with the generators of the model's own variables",
                              {"model": sw.tag, "values": {m.label(z): np.asarray(w).tolist() for z, w in vals.items()}})
            cnt += 1
    return cnt, cnt


def real(name):
    """The same two facts for the sampler with the real kernel (its loops included)."""
    m = M.get(name, 1)
    sw = Sweep.__new__(Sweep)
    sw.name, sw.observe, sw.m, sw.tag, sw._cut = name, (), m, name + " (real kernel)", {}
    sw.b = S.Built(m, stub=False)
    sw.v = sw.b.view()
    no_prior_draw(sw)
    closed(sw)
    n = 0
    for node in scan_nodes(everything(sw)):
        for d in g.draws(list(node.op.inner_outputs)):
            n += 1
    return len(sw.v.rvs) + n, len(sw.v.rvs)


for sw in build_all(check, F):
    check.ob(f"{sw.tag}: no draw of a model variable in the updates", F, lambda: no_prior_draw(sw))
    check.ob(f"{sw.tag}: the updates read nothing but values, data, parameters and the steps' generators", F, lambda: closed(sw))
    if not sw.observe or THOROUGH:
        check.replay(f"{sw.tag}: re-seeding the model's generators", F, lambda: independent(sw, 4 if THOROUGH else 1))
        if sw.b.calls:
            check.replay(f"{sw.tag}: the gradient-based step's density and transforms at given values", "aemcmc.nuts.step", lambda: numeric(Case(sw.name), 2, 1))
for name in ["uniform_bounds", "horseshoe_normal"] + (["transforms_zoo", "same_shapes", "mixed_groups"] if THOROUGH else []):
    check.replay(f"{name}: sampler with the real kernel", F, lambda: real(name))

sys.exit(check.finish())
