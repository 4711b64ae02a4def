"""C08: the gradient-based step targets the model's joint density."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH, REPO  # noqa: F401
from aevc.contracts import nuts_step_contract, transform_contracts

from aevc import graph as g
from aevc import genmodels
from aevc import models as M
from aevc.nutscase import Case, numeric
from aevc.nutsdensity import density_obligations
from aevc.terms import Unsupported

check = Check("C08", "proof")
check.assumptions += [
    "contract of AeHMC (external, not verified): new_kernel(srng, logprob_fn) applied to new_state(q, logprob_fn) leaves exp(logprob_fn) invariant for every step size and inverse mass matrix; the kernel is replaced by a callee that returns an arbitrary position",
    "machine floating point is treated as real arithmetic in the obligations",
    "latent variables are continuous; observed values lie in the support of their distribution, and no observed count parameter exceeds 1e9 (AePPL switches to a Poisson limit at 1e10)",
    "the parts of the position that AeHMC's RaveledParamsMap hands out are disjoint and cover it (external)",
]
check.trusted += [
    "density contracts (aevc/laws.py) and the op contracts of aevc/denote.py, compared with SciPy and with the compiled graphs at random points in every run",
    "aevc/terms.py normal-form engine",
    "aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3",
]
check.assumptions.append("callee contracts assumed by the contracts on the step's construction: clone_get_equiv (injective copies; its memo is extended), joint_logprob (one distinct placeholder per variable, in order), RaveledParamsMap (unravel_params maps the i-th reference parameter to the i-th part), io_toposort (dependencies first), new_kernel and new_state (see above)")
F = "aemcmc.nuts.step"
FC = "aemcmc.nuts.construct_sampler"

nuts_step_contract(check, F)
transform_contracts(check, "aemcmc.nuts")


NAMES = [n for n in M.MODELS if n not in ("gamma_poisson", "nb_regression", "nb_horseshoe_dispersion", "bernoulli_horseshoe")]
for name in NAMES:
    try:
        case = Case(name)
    except Exception:
        # building failed: reported with the traceback
        check.replay(f"{name}: build", FC, lambda: Case(name))
        continue
    if not case.calls:
        check.skip(name, FC, "no gradient-based step is used for this model")
        continue

    def state(case=case):
        for c in case.b.calls:
            if not c.state_ok or c.state_fn is not c.logprob_fn:
                raise Unsupported("the kernel's state was not made by new_state with the kernel's own log-density")
            if c.options != ((), {}):
                raise Unsupported("kernel options")
        return "structural"

    def function(case=case):
        for call in case.calls:
            outs, _ = case.v.cut(case.group(call), [call["logp"]])
            ds = g.draws(outs)
            if ds:
                raise Refuted(f"the log-density passed to the kernel draws random numbers ({[d.op.name for d in ds]})", {"model": case.name}, replayed=False)
        for c in case.b.calls:
            ds = g.draws(g.flatten([c.logp]))
            if ds:
                raise Refuted(f"the log-density function passed to the kernel contains random draws ({[d.op.name for d in ds]}), which its loops repeat", {"model": case.name}, replayed=False)
        return "structural"

    check.ob(f"{name}: chain state of the kernel call", F, state)
    check.ob(f"{name}: the log-density is a function of the position", F, function)
    density_obligations(check, case, name, F)
    check.replay(f"{name}: density ratios, start and assignment", F, lambda: numeric(case, 6 if THOROUGH else 4, 6 if THOROUGH else 2))

# ------------------------------------------------------------------ observation patterns and seeded random models
def more():
    for name in NAMES:
        for obs in M.single_variants(name):
            yield f"{name}|observed {list(obs)}", lambda name=name, obs=obs: Case(name, obs)
    for seed in range(1000 * SEED, 1000 * SEED + (400 if THOROUGH else 60)):
        yield f"generated {seed}", lambda seed=seed: Case(f"generated {seed}", model=genmodels.generate(seed))


for name, make in more():
    try:
        case = make()
    except Exception:
        check.replay(f"{name}: build", FC, lambda make=make: make() and (1, 1))
        continue
    if case.calls and not density_obligations(check, case, name, F, strict=False):
        check.replay(f"{name}: density ratios, start and assignment", F, lambda case=case: numeric(case, 3, 2))

sys.exit(check.finish())
