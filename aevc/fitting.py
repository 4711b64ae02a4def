"""The hypotheses of specialised steps over the model structures of `nearmiss` (C02; by family in C01, C03, C05, C06)."""
from . import hypotheses as H
from . import nearmiss as NM
from . import sampler as S
from .core import Refuted, SEED, THOROUGH

FUNC = {"conjugate": "aemcmc.conjugates.*_posterior / is_elementwise_model", "horseshoe": "aemcmc.gibbs.normal_horseshoe_finder / horseshoe_match",
        "regression": "aemcmc.gibbs.*_logistic_finder / is_logistic_regression", "battery": "aemcmc.basic.construct_sampler"}
used = {}  # kind of step -> the models it was chosen for


def one(check, tag, fam, m, must, kinds=None):
    try:
        b = S.Built(m)
    except Exception as exc:
        # whether a sampler can be built is C09
        check.skip(tag, FUNC[fam], f"not built: {type(exc).__name__}: {exc}")
        return
    sp = H.special(b)
    if kinds is not None and not any(k in kinds for k, _ in sp):
        return
    for k, gr in sp:
        used.setdefault(k if k != "conjugate" else b.steps[gr[0]].owner.op.name, []).append(tag)
    check.ob(f"{tag}: hypotheses of the chosen steps", FUNC[fam], lambda: H.symbolic(m, b))
    if sp:
        check.replay(f"{tag}: law of the chosen steps", FUNC[fam], lambda: H.Numeric(m, b).check(4 if THOROUGH else 1, 1000 * SEED))
    if must:
        def complete():
            have = {m.label(rv) for _, gr in sp for rv in gr}
            missing = [x for x in must if x not in have]
            if missing:
                raise Refuted(f"{tag}: {missing} are not given their specialised steps", {"model": tag}, replayed="structural fact of the returned sampler")
            return "structure of the returned maps"
        check.ob(f"{tag}: specialised steps are used", FUNC[fam], complete)


def family(check, fams, must=False, kinds=None):
    """`must`: also that the steps listed for a model are used (C02); `kinds`: only models with one of these step kinds."""
    for name, (fam, _, _) in NM.NEAR.items():
        if fam in fams:
            m, required = NM.get(name)
            one(check, name, fam, m, required if must else (), kinds)
