"""C18: building a sampler leaves the caller's model untouched."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, ancestors
from aesara.tensor.random.op import RandomVariable

from aevc import graph as g
from aevc import models as M
from aevc import sampler as S
from aevc.contracts import construct_sampler_contract, ir_contract, nuts_contract, rv_updates_contract, sample_prior_contract, step_inputs_contract
from aevc.nutscase import Case, numeric
from aevc.sweeps import build_all, variants, rng_leaves
from aevc.terms import Unsupported

check = Check("C18", "proof")
check.assumptions += [
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position, except in the replays labelled `real kernel`",
]
check.trusted += ["aevc/graph.py: congruence of Aesara graphs"]
check.assumptions.append("callee contracts assumed by the contracts on the construction code: FunctionGraph (outputs and memo), graph_inputs, io_toposort, clone_get_equiv (its memo is extended), and the IR rewrites (random variables and observed variables stay among the graph's outputs)")
check.trusted.append("aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3")
F = "aemcmc.basic.construct_sampler"
FP = "aemcmc.sample.sample_prior"


class Snapshot:
    """The caller's objects: every variable, node, value and map reachable from the model."""

    def __init__(self, m):
        self.m = m
        self.obs = dict(m.obs)
        self.vars = {}
        roots = list(m.rvs) + list(m.obs) + list(m.obs.values()) + list(m.data) + list(m.shared)
        for v in ancestors(roots):
            o = v.owner
            self.vars[v] = (o, v.name, v.type, v.index if o else None,
                            tuple(o.inputs) if o else None, tuple(o.outputs) if o else None, o.op if o else None,
                            hash(o.op) if o else None,
                            getattr(v, "default_update", None), dict(vars(v.tag)).get("test_value") is None)
        self.values = {v: self.value(v) for v in self.vars if isinstance(v, (SharedVariable, Constant))}
        self.stream = list(m.srng.updates())
        self.n_latents = list(m.latents)

    @staticmethod
    def value(v):
        x = v.get_value(borrow=True) if isinstance(v, SharedVariable) else v.data
        return repr(x.bit_generator.state) if hasattr(x, "bit_generator") else repr(np.asarray(x).tolist()) if x is not None else None

    def compare(self, tag):
        m = self.m
        if list(m.obs) != list(self.obs) or any(m.obs[k] is not v for k, v in self.obs.items()):
            raise Refuted(f"{tag}: the observation map was changed", {"model": tag})
        for v, old in self.vars.items():
            o = v.owner
            new = (o, v.name, v.type, v.index if o else None, tuple(o.inputs) if o else None, tuple(o.outputs) if o else None,
                   o.op if o else None, hash(o.op) if o else None, getattr(v, "default_update", None), dict(vars(v.tag)).get("test_value") is None)
            if isinstance(v, Constant):
                # AePPL labels the (shared) constants it is given; this has no effect on results
                old, new = old[:1] + old[2:], new[:1] + new[2:]
                old, new = old[:1] + ("",) + old[1:], new[:1] + ("",) + new[1:]
            for nm, a, b in zip(("owner", "name", "type", "index", "inputs", "outputs", "operator", "operator state", "default update", "tag"), old, new):
                same = a is b or (type(a) is tuple and type(b) is tuple and len(a) == len(b) and all(x is y for x, y in zip(a, b))) or (
                    nm in ("name", "type", "index", "operator", "operator state", "tag") and a == b)
                if not same:
                    raise Refuted(f"{tag}: the {nm} of {v} was changed from {a} to {b}", {"model": tag, "variable": str(v)})
        for v, old in self.values.items():
            if self.value(v) != old:
                raise Refuted(f"{tag}: the value of {v} was changed", {"model": tag, "variable": str(v)})
        st = m.srng.updates()
        if len(st) < len(self.stream) or any(a is not c or b is not d for (a, b), (c, d) in zip(self.stream, st)):
            raise Refuted(f"{tag}: the stream's existing entries were changed", {"model": tag})
        return len(self.vars) + len(self.values)


def untouched(name, observe, stub=True):
    m = M.get(name, 1, observe)
    tag = f"{name}{list(observe) or ''}" + ("" if stub else " (real kernel)")
    snap = Snapshot(m)
    S.Built(m, stub=stub)
    n = snap.compare(tag)
    S.Built(m, stub=stub)
    snap.compare(tag + ", second sampler")
    if stub and not observe:
        for kind in ("none", "data"):
            m = own_updates(M.get(name, 1), kind)
            snap = Snapshot(m)
            S.Built(m)
            n += snap.compare(f"{tag} (default updates: {kind})")
    return n, n


def own_updates(m, kind):
    """Models whose shared variables have other default updates than the stream gave them."""
    if kind == "none":
        for x in dict.fromkeys(m.generators()):
            if isinstance(x, SharedVariable):
                x.default_update = None
    elif kind == "data":
        for x in m.shared:
            x.default_update = x + x
    return m


def prior_untouched(name, kind):
    from aemcmc.sample import sample_prior
    from aemcmc.utils import get_rv_updates

    n = 0
    for request in (lambda m: m.rvs, lambda m: m.rvs[::-1], lambda m: m.rvs[-1:]):
        m = own_updates(M.get(name, 1), kind)
        rvs = request(m)
        given = list(rvs)
        tag = f"{name} (default updates: {kind})"
        snap = Snapshot(m)
        get_rv_updates(m.srng, *rvs)
        n += snap.compare(tag + ", get_rv_updates")
        try:
            sample_prior(m.srng, 3, *rvs)
        finally:
            n += snap.compare(tag + ", sample_prior")
        if rvs != given or len(m.srng.updates()) != len(snap.stream):
            raise Refuted(f"{tag}: sample_prior changed the request or the stream", {"model": tag})
    return n, n


def same_results(name):
    """The user's expressions evaluate to the same numbers before and after."""
    from aemcmc.sample import sample_prior

    m = M.get(name, 1)

    def evaluate(attempt):
        gens = [x for x in dict.fromkeys(m.generators()) if isinstance(x, SharedVariable)]
        old = [x.get_value() for x in gens]
        data = [x.get_value() for x in m.shared]
        f = aesara.function(list(m.data), list(m.rvs), on_unused_input="ignore")
        res = []
        for k in range(2):
            for i, x in enumerate(gens):
                x.set_value(np.random.default_rng([SEED, i, attempt]) if k == 0 else x.get_value())
            res += f(*m.data.values())
        for x, o in zip(gens + m.shared, old + data):
            x.set_value(o)
        return res

    for attempt in range(20):
        try:
            before = evaluate(attempt)
            break
        except ValueError:  # NumPy rejects extreme parameters
            pass
    S.Built(m)
    after = evaluate(attempt)
    for rv, a, b in zip(list(m.rvs) * 2, before, after):
        if not np.array_equal(a, b, equal_nan=True):
            raise Refuted(f"{name}: draws of {m.label(rv)} from the same generators changed after building a sampler: {np.asarray(a).tolist()} before, {np.asarray(b).tolist()} after", {"model": name})
    snap = Snapshot(m)
    sample_prior(m.srng, 3, *m.rvs)
    snap.compare(name + ", sample_prior")
    after = evaluate(attempt)
    for rv, a, b in zip(list(m.rvs) * 2, before, after):
        if not np.array_equal(a, b, equal_nan=True):
            raise Refuted(f"{name}: draws of {m.label(rv)} from the same generators changed after sample_prior", {"model": name})
    return 2 * len(before), len(before)


def pair(name, observe):
    m = M.get(name, 1, observe)
    return m, S.Built(m), S.Built(m)


def leafmap(m, b1, b2):
    mp = {}
    for rv in m.latents:
        mp[b1.init[rv]] = b2.init[rv]
    for v in list(m.data) + list(m.shared):
        mp[v] = v
    for o in m.obs.values():
        for v in g.leaves([o]):
            mp[v] = v
    mp.update(zip(b1.parameters(), b2.parameters()))
    mp.update(zip(b1.stub_inputs(), b2.stub_inputs()))
    return mp


def structure(tag, m, b1, b2):
    s1 = [(m.label(r), b1.kernel(r)) for r in b1.steps]
    s2 = [(m.label(r), b2.kernel(r)) for r in b2.steps]
    if s1 != s2 or list(b1.steps) != list(b2.steps):
        raise Refuted(f"{tag}: the second sampler has the steps {s2} instead of {s1}", {"model": tag})
    g1, g2 = [[m.label(r) for r in x] for x in b1.groups()], [[m.label(r) for r in x] for x in b2.groups()]
    if g1 != g2:
        raise Refuted(f"{tag}: the second sampler has the groups {g2} instead of {g1}", {"model": tag})
    if [p.type for p in b1.parameters()] != [p.type for p in b2.parameters()] or list(b1.init) != list(b2.init):
        raise Refuted(f"{tag}: the second sampler has other parameters or placeholders", {"model": tag})
    if len(b1.sampler.updates or {}) != len(b2.sampler.updates or {}):
        raise Refuted(f"{tag}: the second sampler has other updates", {"model": tag})
    return len(s1)


def congruent(tag, m, b1, b2):
    structure(tag, m, b1, b2)
    v1, v2 = b1.view(), b2.view()
    rngs = {}
    why = []
    if not g.congruent([v1.step[r] for r in b1.steps] + list(v1.update.values()),
                       [v2.step[r] for r in b2.steps] + list(v2.update.values()), leafmap(m, b1, b2), rngs, why):
        raise Unsupported(f"the terms of the two samplers differ: {why[:1]}")
    shared = [r for r in rngs if r is rngs[r] and r in rng_leaves([v1.step[x] for x in b1.steps]) and r not in set(m.generators())]
    if shared:
        raise Refuted(f"{tag}: the two samplers share {len(shared)} generators", {"model": tag}, replayed="structural")
    return "congruence (equal terms up to renamed generators)"


def second_values(tag, m, b1, b2):
    structure(tag, m, b1, b2)
    mp = leafmap(m, b1, b2)
    ins1 = b1.inputs() + b1.stub_inputs()
    ins2 = [mp.get(i, i) for i in ins1]
    f1 = aesara.function(ins1, list(b1.steps.values()), on_unused_input="ignore")
    f2 = aesara.function(ins2, list(b2.steps.values()), on_unused_input="ignore")
    cnt = 0
    for s in range(2):
        vals = m.prior_values(SEED + s)
        e = b1.env(vals)
        q = np.random.default_rng(s).normal(size=b1.q_size(vals)) if b1.stub_inputs() else None
        e.update({x: q for x in b1.stub_inputs()})
        for f in (f1, f2):
            for sh in f.get_shared():
                if isinstance(sh.get_value(), np.random.Generator):
                    sh.set_value(np.random.default_rng([s, 4]))
        for rv, a, b in zip(b1.steps, f1(*[e[i] for i in ins1]), f2(*[e[i] for i in ins1])):
            if not np.allclose(a, b, rtol=1e-9, equal_nan=True):
                raise Refuted(f"{tag}: from equal random numbers, the update of {m.label(rv)} is {np.asarray(a).tolist()} in the first and {np.asarray(b).tolist()} in the second sampler",
                              {"model": tag, "values": {m.label(z): np.asarray(w).tolist() for z, w in vals.items()}})
            cnt += 1
    return cnt, cnt


construct_sampler_contract(check, F, parts=("frame",))
ir_contract(check, "aemcmc.rewriting.construct_ir_fgraph", parts=("frame",))
step_inputs_contract(check, "aemcmc.basic.replace_step_inputs", parts=("frame",))
nuts_contract(check, "aemcmc.nuts.construct_sampler", parts=("frame",))
rv_updates_contract(check, "aemcmc.utils.get_rv_updates", parts=("frame",))
sample_prior_contract(check, FP, parts=("frame",))

for name, observe in list(variants()) + [(n, ()) for n in M.EXTRA]:
    tag = f"{name}{list(observe) or ''}"
    check.replay(f"{tag}: the caller's objects before and after", F, lambda: untouched(name, observe))
    if observe and not THOROUGH:
        continue
    try:
        m, b1, b2 = pair(name, observe)
    except Exception as exc:
        check.skip(tag, F, f"not built: {type(exc).__name__}: {exc}")
        continue
    st = check.ob(f"{tag}: a second sampler is the same", F, lambda: congruent(tag, m, b1, b2))
    if st != "discharged" or THOROUGH:
        check.replay(f"{tag}: a second sampler gives the same values", F, lambda: second_values(tag, m, b1, b2))
    if not observe:
        check.replay(f"{tag}: the model's draws before and after", F, lambda: same_results(name))
for name in [n for n, o in variants() if not o] + list(M.EXTRA):
    for kind in ("stream", "none", "data"):
        check.replay(f"{name}: the caller's objects before and after prior sampling, default updates: {kind}", FP, lambda: prior_untouched(name, kind))
for name in ["uniform_bounds"] + (["horseshoe_normal", "transforms_zoo", "gamma_poisson_hyper"] if THOROUGH else []):
    check.replay(f"{name}: the caller's objects (real kernel)", F, lambda: untouched(name, (), False))

sys.exit(check.finish())
