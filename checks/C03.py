"""C03: the horseshoe step leaves the shrinkage conditional invariant."""
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream
from fractions import Fraction as Fr
from scipy import stats

from aevc import auxgibbs, fitting, laws, terms as t
from aevc.auxgibbs import Role
from aevc.denote import dim_expr
from aevc.steps import build, step_graph  # noqa: F401
from aevc import graph as g
from aevc.subject import Leaf, Subject
from aevc.terms import Unsupported

import aemcmc.gibbs as AG

check = Check("C03", "proof")
check.assumptions += [
    "real arithmetic in the obligations (replays run in float64)",
    "lemma (not machine-checked): a pass of draws from conditionals at the newest values leaves the joint law invariant",
    "coefficients are not all zero and the noise variance is positive",
]
check.trusted += [
    "density contracts of gamma, exponential, inverse-gamma in aevc/laws.py (compared with scipy in C01 and here)",
    "Aesara's random ops draw from the distribution of their parameters",
    "aevc/terms.py normal-form engine",
]
HALF = Fr(1, 2)


def roles(sig2, p, cur_L, cur_T, beta, td=()):
    """Extended target of L = 1/lambda^2, T = 1/tau^2 and the mixing variables u, v.

    log joint = sum_j [-1/2 log L_j - u_j (1 + L_j)] + [-1/2 log T - v (1 + T)]
              + sum_j [1/2 log L_j + 1/2 log T - beta_j^2 L_j T / (2 sigma2)]
    """
    nrm = HALF / sig2
    z = [t.ix(None, 0)] * len(td)

    def cu(s, i, x):
        return -x * (1 + s["L"](*i))

    def cv(s, i, x):
        return -x * (1 + s["T"](*z))

    def cL(s, i, x):
        b = beta(*i)
        return -HALF * t.log(x) - s["u"](*i) * x + HALF * t.log(x) - b * b * x * s["T"](*z) * nrm

    def cT(s, i, x):
        q = t.sum_over(beta("j0") * beta("j0") * s["L"]("j0"), "j0", p)
        n = dim_expr(p)
        return -HALF * t.log(x) - s["v"](*z) * x + HALF * n * t.log(x) - q * x * nrm

    return [Role("u", [p], cu), Role("v", list(td), cv), Role("L", [p], cL, cur_L), Role("T", list(td), cT, cur_T)]


def augmentation():
    """The mixing variables integrate out to standard half-Cauchy shrinkage parameters.

    exp{-1/2 log L - u (1 + L)} = Exponential(u; rate 1 + L) * exp{-1/2 log L - log(1 + L)} and the
    latter is the half-Cauchy density of lambda = L^(-1/2), up to a constant.
    """
    Ls, u = t.sym("aL"), t.sym("au")
    t.declare_positive("aL", "au")
    joint = -HALF * t.log(Ls) - u * (1 + Ls)
    marg = joint - laws.logp("exponential", [t.power(1 + Ls, -1)], u)
    lam2 = t.power(Ls, -1)
    jac = t.log(Ls) * Fr(-3, 2)
    target = -t.log(1 + lam2) + jac
    d = marg - target
    # log(1 + 1/L) = log(1 + L) - log L
    d = d - (t.log(1 + lam2) - t.log(1 + Ls) + t.log(Ls))
    if d.is_zero():
        return "normal-form"
    raise Unsupported(t.show(d))


check.ob("the extended target's marginal is half-Cauchy", "aevc: lemma", augmentation)

SIZES = [dict(p=3), dict(p=1), dict(p=5)]


class HS:
    """outs: lambda, tau;  the leaf names of the current state and of beta, sigma2."""

    def __init__(self, name, func, outs, leaves, p, curl, curt, sig2, tau_dims=(), squared=False):
        self.name, self.func, self.p = name, func, p
        self.subj = Subject(name, outs, leaves)
        beta = lambda *i: t.sym("beta", *i)  # noqa: E731
        self.roles = roles(sig2, p, curl, curt, beta, tau_dims)
        self.z = [t.ix(None, 0)] * len(tau_dims)
        self.tau_dims = tau_dims

    def run(self):
        s, f = self.subj, self.func

        def selfcheck():
            for k, d in enumerate(SIZES):
                s.selfcheck(d, k)
            return "concrete evaluation"

        ok = check.ob(f"{self.name}: denotation agrees with the graph", f, selfcheck) == "discharged"
        D = outs = None
        try:
            D, outs, _ = s.denote(())
        except Unsupported:
            pass

        def need():
            if not ok or D is None:
                raise Unsupported("no denotation")

        box = {}

        def law():
            need()
            box["r"] = auxgibbs.symbolic(D, self.roles)
            return "normal-form"

        check.ob(f"{self.name}: every draw is a conditional of the extended target at the newest values", f, law)

        def scale():
            need()
            if "r" not in box:
                raise Unsupported("roles not established")
            asg, st = box["r"]
            lam, tau = outs
            if [dim_expr(q) for q in lam.dims] != [dim_expr(self.p)] or len(tau.dims) != len(self.tau_dims) or D.assumed_equal_dims:
                raise Unsupported(f"shapes {lam.dims} {tau.dims} {D.assumed_equal_dims}")
            if not (lam("i0") - t.power(st["L"]("i0"), -HALF)).is_zero() or not (tau(*self.z) - t.power(st["T"](*self.z), -HALF)).is_zero():
                raise Unsupported(f"returned {t.show(lam('i0'))}")
            return "normal-form"

        check.ob(f"{self.name}: returns lambda and tau, one local value per coefficient", f, scale)

        def fresh():
            need()
            if len({d.node for d in D.draws}) != 4:
                raise Unsupported("draw count")
            rngs = [d.node.inputs[0] for d in D.draws]
            if len(set(rngs)) != len(rngs):
                raise Refuted("two draws share one generator state", {"draws": [str(d) for d in D.draws]}, replayed=False)
            return "structural"

        check.ob(f"{self.name}: draws use different generators", f, fresh)

        def conc():
            if D is None:
                return 0, 0
            kinds = sorted(n.op.name for n in s.nodes)
            if len(kinds) != 4 or not set(kinds) <= {"gamma", "exponential", "invgamma"}:
                return 0, 0  # another construction: the Monte-Carlo replay decides
            n = 0
            for k, (d, far) in enumerate([(d, far) for far in (0, 0, 2, 5, 9) + (0, 2, 5, 9) * (3 if THOROUGH else 0) for d in SIZES] + [({"p": 1100, "val:p": 1100}, 0)]):
                def chk(which):
                    def go(o, state, env, wit):
                        if which == "L":
                            want = [t.neval(t.power(state["L"]("i"), -HALF), env, d, {"i": q}) for q in range(np.size(o))]
                        else:
                            want = t.neval(t.power(state["T"](*self.z), -HALF), env, d, {})
                        if np.size(o) != np.size(want) or not np.allclose(np.ravel(o), np.ravel(want)):
                            raise Refuted(f"{self.name}: returned {o} for {'lambda' if which == 'L' else 'tau'} instead of {want}", wit)
                    return go
                asg, wit = auxgibbs.concrete(D, s, self.roles, d, 50 + k, [chk("L"), chk("T")], far)
                if asg is None:
                    raise Refuted(f"{self.name}: the draws are not the conditionals of the half-Cauchy mixture", wit)
                n += 4
            return n, n

        check.replay(f"{self.name}: parameters of the draws", f, conc)


# ------------------------------------------------------------------ the function itself
be, s2, l2, t2 = at.vector("beta"), at.scalar("sigma2"), at.vector("lambda2"), at.scalar("tau2")
F = "aemcmc.gibbs.horseshoe_posterior"
outs = list(AG.horseshoe_posterior(RandomStream(3), be, s2, l2, t2))
hs = HS("horseshoe_posterior", F, outs,
        [Leaf(be, "beta", ["p"]), Leaf(s2, "s2", [], "pos"), Leaf(l2, "l2", ["p"], "pos"), Leaf(t2, "t2", [], "pos")], "p",
        lambda i: t.power(t.sym("l2", i), -1), lambda *i: t.power(t.sym("t2"), -1), t.sym("s2"))
hs.run()


# ------------------------------------------------------------------ the step in built samplers
def models():
    s = RandomStream(5)

    def mk(kind):
        tau = s.halfcauchy(0, 1, name="tau", **({"size": 1} if kind == "tau1" else {}))
        size = at.lscalar("p") if kind == "sym" else 3
        lam = s.halfcauchy(0, 1, size=size, name="lam")
        sd = tau * lam if kind == "swap" else lam * tau
        beta = s.normal(0, sd, size=size, name="beta") if kind != "nosize" else s.normal(0, sd, name="beta")
        lv = []
        if kind == "sym":
            lv.append(Leaf(size, "p", [], lambda r, sh: np.asarray(4)))
        if kind == "latent":
            X = at.matrix("X")
            Y = s.bernoulli(at.sigmoid(-(X @ beta)), name="Y")
            return {Y: Y.type("y")}, lam, tau, beta, lv, 3
        bv = beta.type("bv")
        return {beta: bv}, lam, tau, bv, lv, ("val:p" if kind == "sym" else 3)

    for kind in ("plain", "swap", "nosize", "tau1", "sym", "latent"):
        yield (kind, *mk(kind))


F2 = "aemcmc.gibbs.normal_horseshoe_finder"
built = {}
for kind, obs, lam, tau, beta, lv, p in models():
    sampler, init = build(obs, seed=9)
    k1, k2 = (type(sampler.sample_steps[v].owner.op).__name__ for v in (lam, tau))
    if "NUTS" in (k1 + k2):
        check.skip(f"sampler {kind}", F2, "the generic step is used for this model")
        continue
    cl, ct, cb = at.vector("cl"), at.TensorType(tau.type.dtype, tau.type.shape)("ct"), at.vector("cb")
    sub = {init[lam]: cl, init[tau]: ct}
    if beta in init:
        # the coefficients' own step comes before or after: its value is `cb` either way
        sub[init[beta]] = cb
        sub[sampler.sample_steps[beta]] = cb
    else:
        sub[beta] = cb
    outs = g.flatten([sampler.sample_steps[lam], sampler.sample_steps[tau]], sub)
    td = [1] if tau.type.ndim else []
    h = HS(f"sampler {kind}", F2, outs,
           [Leaf(cb, "beta", [p]), Leaf(cl, "cl", [p], "pos"), Leaf(ct, "ct", td, "pos")] + lv, p,
           lambda i: t.power(t.sym("cl", i), -2), lambda *i: t.power(t.sym("ct", *i), -2),
           t.lift(1), td)
    built[kind] = (h, obs, lam, tau, sampler, init)
    for d in SIZES:
        d.setdefault("val:p", 4)
    h.run()


def cover():
    if not built:
        raise Unsupported("no horseshoe step was built")
    return "reachability"


check.ob("the horseshoe step is reached from construct_sampler", "aemcmc.basic.construct_sampler", cover)


# ------------------------------------------------------------------ Monte-Carlo invariance
def geweke(name, subj, order, p, sig2, N):
    """lambda, tau from the prior, beta | lambda, tau; after one step the joint law is the same."""
    rng = np.random.default_rng([SEED, 77])
    fn = subj.drawer(3)
    R = np.empty((N, 2 * p + 1))
    for k in range(N):
        lam = np.abs(rng.standard_cauchy(p))
        tau = abs(rng.standard_cauchy())
        beta = rng.normal(size=p) * lam * tau * np.sqrt(sig2)
        l1, t1 = fn(*[v(lam, tau, beta) for v in order])
        l1 = np.asarray(l1)
        if l1.shape != (p,) or np.size(t1) != 1:
            raise Refuted(f"{name}: shapes {l1.shape}, {np.shape(t1)}", {"lambda": lam, "tau": tau, "beta": beta})
        t1 = float(np.ravel(t1)[0])
        R[k, :p] = l1
        R[k, p] = t1
        R[k, p + 1:] = beta / (l1 * t1 * np.sqrt(sig2))
    U = np.empty_like(R)
    for j in range(R.shape[1]):
        dist = stats.halfcauchy if j <= p else stats.norm
        pv = stats.kstest(R[:, j], dist.cdf).pvalue
        if not pv > 1e-8:
            raise Refuted(f"{name}: after one step from stationarity {'lambda' if j < p else 'tau' if j == p else 'beta/(lambda tau sigma)'} "
                          f"does not have its stationary law (KS p-value {pv:.2e})", {"N": N, "p": p, "column": j})
        U[:, j] = stats.norm.ppf(np.clip(dist.cdf(R[:, j]), 1e-12, 1 - 1e-12))
    C = np.corrcoef(U.T) - np.eye(U.shape[1])
    if np.abs(C).max() > 6.5 / np.sqrt(N):
        raise Refuted(f"{name}: stationary independence is lost (correlation {np.abs(C).max():.3f})", {"N": N, "p": p})
    return N, N


N = 60000 if THOROUGH else 8000
for p_, v in ((1, 1.0), (3, 2.25)):
    check.replay(f"horseshoe_posterior: one step from stationarity, p={p_}", F,
                 lambda p_=p_, v=v: geweke("horseshoe_posterior", hs.subj, [lambda l, t_, b: b, lambda l, t_, b: v, lambda l, t_, b: l**2, lambda l, t_, b: t_**2], p_, v, N))
for kind in ("plain", "tau1", "latent"):
    if kind in built:
        td = kind == "tau1"
        check.replay(f"sampler {kind}: one step from stationarity", F2,
                     lambda kind=kind, td=td: geweke(f"sampler {kind}", built[kind][0].subj, [lambda l, t_, b: b, lambda l, t_, b: l, lambda l, t_, b: [t_] if td else t_], 3, 1.0, N // 2))
# what the patterns match: the hypotheses of the chosen steps, per model structure
fitting.family(check, ("horseshoe",))
sys.exit(check.finish())
