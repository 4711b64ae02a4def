"""C02: specialised steps are only used for models they are valid for."""
import sys

from aevc import fitting
from aevc import models as M
from aevc.contracts import dependents_contract, finder_contracts, record_contract
from aevc.core import Check
from aevc.sweeps import variants

check = Check("C02", "other")
check.assumptions += [
    "the laws of the steps for models that satisfy their hypotheses are C01 and C03-C06",
    "real arithmetic in the obligations",
    "contracts of external callees in the obligations on the finders: `unify` and kanren's `run` (what a pattern matched is only decided per model structure), `FunctionGraph.clients`, `ancestors`; termination is not proved",
]
check.trusted += [
    "the op contracts in aevc/denote.py; aevc/terms.py normal-form engine",
    "SciPy's densities (bounded replays)",
    "aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3",
]
# for every graph: the code that decides whether a step is used
dependents_contract(check, "aemcmc.utils.get_rv_dependents")
finder_contracts(check)
record_contract(check, "aemcmc.rewriting.sampler_finder")
# per model structure: what the patterns match
fitting.family(check, ("conjugate", "horseshoe", "regression"), must=True)
for name, observe in variants():
    m = M.get(name, 1, observe)
    fitting.one(check, name + (f" with {', '.join(m.label(m.rvs[i]) for i in observe)} observed" if observe else ""), "battery", m, ())
check.samples += [f"{k}: chosen for {len(v)} models" for k, v in fitting.used.items()]
sys.exit(check.finish())
