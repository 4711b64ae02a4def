"""C09: every unobserved variable gets exactly one usable step."""
import sys
import traceback

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.basic import Variable
from aesara.tensor.random import RandomStream

from aevc import models as M
from aevc import sampler as S
from aevc import genmodels
from aevc.contracts import construct_sampler_contract, ir_contract
from aevc.sweeps import Sweep, variants
from aevc.terms import Unsupported

check = Check("C09", "other")
check.assumptions += [
    "models of continuous latent variables that Aesara, AePPL and AeHMC support (AePPL must have a density for every variable)",
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position, except in the replays labelled `real kernel`",
]
check.assumptions.append("callee contracts assumed by the contracts on the construction code: FunctionGraph (outputs and memo), graph_inputs, io_toposort, clone_get_equiv (its memo is extended), and the IR rewrites (random variables and observed variables stay among the graph's outputs)")
check.trusted.append("aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3")
F = "aemcmc.basic.construct_sampler"


def build(tag, m, stub=True):
    with aesara.config.change_flags(on_opt_error="raise"):
        return S.Built(m, stub=stub)


def total(tag, m, b):
    """Keys and types of the steps and initial-value placeholders."""
    w = {"model": tag}
    lat = set(m.latents)
    for what, d in (("steps", b.sampler.sample_steps), ("initial values", b.init)):
        if set(d) != lat:
            miss, extra = [m.label(r) for r in lat - set(d)], [str(r) for r in set(d) - lat]
            raise Refuted(f"{tag}: the {what} are not those of the unobserved variables (missing {miss}, additional {extra})", w)
    seen = {}
    for rv, v in b.init.items():
        if v.owner is not None or v in m.obs.values() or v is rv:
            raise Refuted(f"{tag}: the initial value of {m.label(rv)} is not a placeholder of its own", w)
        if v in seen:
            raise Refuted(f"{tag}: {m.label(rv)} and {m.label(seen[v])} share a placeholder", w)
        seen[v] = rv
        if v.type != rv.type:
            raise Refuted(f"{tag}: the placeholder of {m.label(rv)} has type {v.type} instead of {rv.type}", w)
    seen = {}
    for rv, v in b.sampler.sample_steps.items():
        if not isinstance(v, Variable) or v in b.init.values() or v is rv or v.owner is None:
            raise Refuted(f"{tag}: {m.label(rv)} has no update", w)
        if v in seen:
            raise Refuted(f"{tag}: {m.label(rv)} and {m.label(seen[v])} have the same update", w)
        seen[v] = rv
    return len(lat)


def runs(tag, m, b, n=1, step_size=1e-3):
    """Compiles with the returned updates (as in the README) and runs."""
    ins = b.inputs() + b.stub_inputs()
    f = aesara.function(ins, list(b.steps.values()), updates=b.sampler.updates, on_unused_input="ignore")
    cnt = 0
    for s in range(n):
        vals = m.prior_values(SEED * 10 + s)
        e = b.env(vals, step_size)
        q = 0.3 * np.random.default_rng(s).normal(size=b.q_size(vals)) if b.stub_inputs() else None
        e.update({x: q for x in b.stub_inputs()})
        out = f(*[e[i] for i in ins])
        for rv, x in zip(b.steps, out):
            if np.shape(x) != np.shape(vals[rv]):
                raise Refuted(f"{tag}: the update of {m.label(rv)} has shape {np.shape(x)} instead of {np.shape(vals[rv])}", {"model": tag})
            cnt += 1
    return cnt


def whole(name, observe):
    """One obligation (totality of the maps) and one replay on one model."""
    m = M.get(name, 1, observe)
    tag = name + (f" with {', '.join(m.label(m.rvs[i]) for i in observe)} observed" if observe else "")
    try:
        b = build(tag, m)
    except Exception:
        tb = traceback.format_exc()
        check.replay(f"{tag}: construction", F, lambda: fails(tag, tb))
        return
    check.ob(f"{tag}: one step and one placeholder per unobserved variable", F, lambda: structural(tag, m, b))
    check.replay(f"{tag}: compilation and a sweep", F, lambda: runs(tag, m, b, 3 if THOROUGH else 1))


def fails(tag, tb):
    raise Refuted(f"{tag}: construct_sampler failed: {tb[-1500:]}", {"model": tag})


def structural(tag, m, b):
    try:
        total(tag, m, b)
    except Refuted as e:
        e.replayed = "structural fact of the returned sampler"
        raise
    return "structure of the returned maps"


def real(name):
    m = M.get(name, 1)
    b = build(name, m, stub=False)
    n = total(name, m, b)
    return n + runs(name + " (real kernel)", m, b), n


def random_model(seed):
    m = genmodels.generate(seed)
    b = build(m.name, m)
    n = total(m.name, m, b)
    return n + runs(m.name, m, b), n


def nothing_latent():
    s = RandomStream(3)
    x = s.normal(0.0, 1.0, name="x")
    y = s.normal(x, 1.0, name="y")
    m = M.Model("nothing_latent", s, [x, y])
    b = build(m.name, m)
    total(m.name, m, b)
    return 1, 1


def independent_latent():
    """Two observed variables with latent parents of their own."""
    s = RandomStream(3)
    a, c = s.normal(0.0, 1.0, name="a"), s.gamma(2.0, 1.0, size=2, name="c")
    y, z = s.normal(a, 1.0, name="y"), s.poisson(c, name="z")
    m = M.Model("independent_latent", s, [z, y])
    b = build(m.name, m)
    return total(m.name, m, b) + runs(m.name, m, b), 2


construct_sampler_contract(check, F, parts=("domain",))
ir_contract(check, "aemcmc.rewriting.construct_ir_fgraph", parts=("domain",))
for name, observe in variants():
    whole(name, observe)
check.replay("no latent variables", F, nothing_latent)
check.replay("independent latent variables", F, independent_latent)
for k in range(60 if THOROUGH else 12):
    check.replay(f"generated model {SEED * 1000 + k}", F, lambda: random_model(SEED * 1000 + k))
for name in ["horseshoe_normal", "gamma_poisson_hyper"] + (["uniform_bounds", "transforms_zoo", "matrices", "nb_dispersion_hyper", "mixed_groups"] if THOROUGH else []):
    check.replay(f"{name}: real kernel", F, lambda: real(name))

sys.exit(check.finish())
