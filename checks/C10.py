"""C10: one sweep is a Gibbs sweep over the newest values."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import numpy as np
from aesara.tensor.random.op import RandomVariable

from aevc import graph as g
from aevc import oracle as O
from aevc.contracts import construct_sampler_contract, nuts_contract, step_inputs_contract
from aevc.nutscase import Case, numeric
from aevc.sweeps import Sweep, variants
from aevc.terms import Unsupported

check = Check("C10", "proof")
check.assumptions += [
    "sweeps are run with the update order of `Sampler.sample_steps` (all the updates of one call are functions of the placeholders)",
    "what each step does given the values it reads is decided by C01 and C03-C08",
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position",
]
check.trusted += [
    "aevc/graph.py: flattening, sharing and congruence of Aesara graphs (graphs are the terms the compiled function evaluates)",
]
check.assumptions.append("callee contracts assumed by the contracts on the construction code: FunctionGraph (outputs and memo), graph_inputs, io_toposort, clone_get_equiv (its memo is extended), and the IR rewrites (random variables and observed variables stay among the graph's outputs)")
check.trusted.append("aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3")
F = "aemcmc.basic.construct_sampler"


def frame(sw, k):
    """Reads clause of step k: exactly the newest versions of the variables of its blanket."""
    m, b, v = sw.m, sw.b, sw.v
    gr = v.groups[k]
    outs, ph, L = sw.cut(k)
    names = [m.label(r) for r in gr]
    blanket = set().union(*[m.blanket(r) for r in gr]) - set(gr)
    w = {"model": sw.tag, "step of": names}
    for r in m.latents:
        if r in gr:
            continue
        new, cur = ph[r] in L, b.init[r] in L
        if v.order[r] < k and cur:
            raise Refuted(f"{sw.tag}: the step of {names} reads the value {m.label(r)} had before this sweep, although {m.label(r)} is updated earlier", w, replayed="structural")
        if v.order[r] > k and new:
            raise Refuted(f"{sw.tag}: the step of {names} reads the result of the later step of {m.label(r)}", w, replayed="structural")
        if r in blanket and not (new or cur):
            raise Refuted(f"{sw.tag}: the step of {names} reads no value of {m.label(r)}", w, replayed="structural")
        # reading the newest value of any other variable is allowed (terms of the joint density
        # that do not depend on the group are constants)
    for r in m.obs:
        ol = sw.obs_leaves(r)
        if r in blanket and ol and not (ol & L):
            raise Refuted(f"{sw.tag}: the step of {names} does not read the observed value of {m.label(r)}", w, replayed="structural")
    if b.kernel(gr[0]) == "NUTSKernel":
        for r in gr:
            if b.init[r] not in L:
                raise Refuted(f"{sw.tag}: the step of {names} does not read the current value of {m.label(r)}", w, replayed="structural")
    return "data-flow (exact read sets)"


def reference(sw, k):
    """The sampler of the model in which everything outside of group `k` is observed."""
    gr = sw.v.groups[k]
    pos = tuple(i for i, rv in enumerate(sw.m.rvs) if rv not in gr and (rv in sw.m.latents or i in sw.observe))
    ref = Sweep(sw.name, pos)
    gr2 = [ref.m.rvs[sw.m.rvs.index(r)] for r in gr]
    if [set(x) for x in ref.v.groups] != [set(gr2)] or ref.b.kernel(gr2[0]) != sw.b.kernel(gr[0]):
        raise Unsupported("the step is not the one of the model with all other variables observed")
    return ref, gr2


def pairs(sw, k, ref, gr2):
    """{leaf of step k: leaf of the reference} for corresponding values."""
    m, n = sw.m, ref.m
    gr = sw.v.groups[k]
    outs, ph, L = sw.cut(k)
    mp = {}
    for r in m.rvs:
        r2 = n.rvs[m.rvs.index(r)]
        if r in gr:
            mp[sw.b.init[r]] = ref.b.init[r2]
        elif r in m.latents:
            mp[ph[r] if sw.v.order[r] < k else sw.b.init[r]] = n.obs[r2]
        else:
            mp[m.obs[r]] = n.obs[r2]
    mp.update(zip(m.data, n.data))
    mp.update(zip(m.shared, n.shared))
    mp.update(zip(sw.b.parameters(), ref.b.parameters()))
    for a, b in zip(sw.b.stub_inputs(), ref.b.stub_inputs()):
        mp[a] = b
    # the stub's own constants
    return mp


def same_term(sw, k):
    ref, gr2 = reference(sw, k)
    mp = pairs(sw, k, ref, gr2)
    outs = sw.cut(k)[0]
    outs2 = [ref.v.step[r] for r in gr2]
    if not g.congruent(outs, outs2, mp):
        raise Unsupported("the step's term differs from the one that conditions on observations")
    return "congruence (step = step given all other values as observations)"


def same_value(sw, k, nstates):
    """The step's draws, given A for the newest values and B for the stale ones, equal the
    reference's draws given A, from equal generator states."""
    ref, gr2 = reference(sw, k)
    m, n = sw.m, ref.m
    gr = sw.v.groups[k]
    outs, ph, L = sw.cut(k)
    stub = sw.b.stub_inputs()
    ins = sw.b.inputs() + list(ph.values()) + stub
    f = aesara.function(ins, outs, on_unused_input="ignore")
    stub2 = ref.b.stub_inputs()
    ins2 = ref.b.inputs() + stub2
    f2 = aesara.function(ins2, [ref.v.step[r] for r in gr2], on_unused_input="ignore")
    cnt = 0
    for s in range(nstates):
        A, B = m.prior_values(SEED * 100 + s), m.prior_values(SEED * 100 + s + 5000)
        e = sw.b.env(A)
        for r in m.latents:
            if r not in gr and sw.v.order[r] < k:
                e[sw.b.init[r]] = np.asarray(B[r], dtype=r.type.dtype)
        for r, p in ph.items():
            # results of later steps are never read (see the frame obligation)
            e[p] = np.asarray((A if sw.v.order[r] < k else B)[r], dtype=p.type.dtype)
        A2 = {n.rvs[m.rvs.index(r)]: x for r, x in A.items()}
        e2 = ref.b.env(A2)
        q = np.random.default_rng(s).normal(size=sw.b.q_size(A)) if stub else None
        e.update({x: q for x in stub})
        e2.update({x: q for x in stub2})
        for fn in (f, f2):
            for sh in fn.get_shared():
                if isinstance(sh.get_value(), np.random.Generator):
                    sh.set_value(np.random.default_rng([SEED, s, 3]))
        x = f(*[e[i] for i in ins])
        y = f2(*[e2[i] for i in ins2])
        for r, a, c in zip(gr, x, y):
            if np.shape(a) != np.shape(c) or not np.allclose(a, c, rtol=1e-9, atol=1e-12, equal_nan=True):
                raise Refuted(
                    f"{sw.tag}: from equal random numbers, the step of {m.label(r)} gives {np.asarray(a).tolist()}, "
                    f"but {np.asarray(c).tolist()} when the newest values of the other variables are given as observations",
                    {"model": sw.tag, "newest": {m.label(z): np.asarray(w).tolist() for z, w in A.items()},
                     "stale": {m.label(z): np.asarray(w).tolist() for z, w in B.items()}})
            cnt += 1
    return cnt, cnt


def conditional(sw, k, nstates):
    """Single-draw steps against the oracle's conditional at the newest values."""
    m = sw.m
    gr = sw.v.groups[k]
    outs, ph, L = sw.cut(k)
    (o,), (rv,) = outs, gr
    op = o.owner.op
    ins = sw.b.inputs() + list(ph.values())
    f = aesara.function(ins, list(o.owner.inputs[3:]), on_unused_input="ignore")
    joint = O.Joint(m)
    cnt = 0
    for s in range(nstates):
        A, B = m.prior_values(SEED * 100 + s + 50), m.prior_values(SEED * 100 + s + 5050)
        e = sw.b.env(A)
        for r in m.latents:
            if r not in gr and sw.v.order[r] < k:
                e[sw.b.init[r]] = np.asarray(B[r], dtype=r.type.dtype)
        for r, p in ph.items():
            e[p] = np.asarray((A if sw.v.order[r] < k else B)[r], dtype=p.type.dtype)
        ps = f(*[e[i] for i in ins])
        ref = None
        for j in range(3):
            x = dict(A)
            x[rv] = m.prior_values(SEED * 100 + s + 10 * j + 7)[rv]
            d = O.logpdf(op.name, ps, x[rv]) - joint(x)
            if ref is None:
                ref = d
            if not np.isclose(d, ref, rtol=0, atol=1e-6 * max(1.0, abs(d))):
                raise Refuted(f"{sw.tag}: the step of {m.label(rv)} does not draw from its conditional given the newest values (log ratio {d} at one value and {ref} at another)",
                              {"model": sw.tag, "values": {m.label(z): np.asarray(w).tolist() for z, w in A.items()}})
            cnt += 1
    return cnt, cnt


def in_loop(sw):
    """No step's draw inside the integration loops of the (real) kernel: see C08 for the density."""
    for c in sw.b.calls:
        ds = g.draws(g.flatten([c.logp]))
        if ds:
            raise Refuted(f"{sw.tag}: the log-density given to the kernel contains draws of other steps ({[d.op.name for d in ds]})", {"model": sw.tag}, replayed="structural")
    return "data-flow (exact read sets)"


construct_sampler_contract(check, F, parts=("order",))
step_inputs_contract(check, "aemcmc.basic.replace_step_inputs", parts=("values",))
nuts_contract(check, "aemcmc.nuts.construct_sampler", parts=("values",))

sweeps = []
for name, observe in variants():
    try:
        sw = Sweep(name, observe)
    except Exception as exc:
        # whether a sampler can be built is C09's question
        check.skip(f"{name} {observe}", F, f"not built: {type(exc).__name__}: {exc}")
        continue
    sweeps.append(sw)

for sw in sweeps:
    for k, gr in enumerate(sw.v.groups):
        who = ", ".join(sw.m.label(r) for r in gr)
        check.ob(f"{sw.tag}: read set of the step of {who}", F, lambda: frame(sw, k))
        if sw.b.kernel(gr[0]) == "NUTSKernel":
            # its density given the newest values: C08 and the replay below
            pass
        else:
            st = check.ob(f"{sw.tag}: the step of {who} is the step given the newest values", F, lambda: same_term(sw, k))
            if (st != "discharged" or not sw.observe or THOROUGH) and not (st == "undecided" and "all other variables observed" in check.obs[-1]["detail"]):
                check.replay(f"{sw.tag}: values of the step of {who}", F, lambda: same_value(sw, k, 6 if THOROUGH else 2))
        outs = sw.cut(k)[0]
        if len(gr) == 1 and isinstance(outs[0].owner.op, RandomVariable) and outs[0].owner.op.name in ("gamma", "beta") \
                and sw.b.kernel(gr[0]) != "NUTSKernel" and sw.name != "beta_nbinom" \
                and not any(r.owner.op.name == "nbinom" for r in sw.m.rvs):
            check.replay(f"{sw.tag}: conditional of {who}", F, lambda: conditional(sw, k, 4 if THOROUGH else 2))
    if sw.b.calls:
        check.ob(f"{sw.tag}: no draws inside of the kernel's loops", "aemcmc.nuts.construct_sampler", lambda: in_loop(sw))
        if not sw.observe or sw.name in ("horseshoe_normal", "same_shapes", "mixed_groups") or THOROUGH:
            check.replay(f"{sw.tag}: density and start of the gradient-based step at the newest values", "aemcmc.nuts.step",
                         lambda: numeric(Case(sw.name, sw.observe), 3, 2))

sys.exit(check.finish())
