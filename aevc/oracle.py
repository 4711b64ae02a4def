"""Numeric oracle: the joint log-density of the user's model, read off the user's own graph.

Independent of AeMCMC and AePPL: the parameters of every random variable are computed by the
user's expressions at given values of the other variables and passed to SciPy.
"""
import aesara
import numpy as np
from aesara.graph.basic import clone_replace
from scipy import stats


def logpdf(kind, p, x):
    """Sum over the elements of the log-density; `p` are the in-graph parameters."""
    S = stats
    x = np.asarray(x)
    with np.errstate(all="ignore"):
        if kind in ("normal", "standard_normal"):
            r = S.norm.logpdf(x, p[0] if p else 0.0, p[1] if len(p) > 1 else 1.0)
        elif kind == "gamma":
            r = S.gamma.logpdf(x, p[0], scale=p[1])
        elif kind == "beta":
            r = S.beta.logpdf(x, p[0], p[1])
        elif kind == "invgamma":
            r = S.invgamma.logpdf(x, p[0], scale=p[1])
        elif kind == "exponential":
            r = S.expon.logpdf(x, scale=p[0])
        elif kind == "halfnormal":
            r = S.halfnorm.logpdf(x, p[0], p[1])
        elif kind == "halfcauchy":
            r = S.halfcauchy.logpdf(x, p[0], p[1])
        elif kind == "cauchy":
            r = S.cauchy.logpdf(x, p[0], p[1])
        elif kind == "laplace":
            r = S.laplace.logpdf(x, p[0], p[1])
        elif kind == "logistic":
            r = S.logistic.logpdf(x, p[0], p[1])
        elif kind == "gumbel":
            r = S.gumbel_r.logpdf(x, p[0], p[1])
        elif kind == "lognormal":
            r = S.lognorm.logpdf(x, s=p[1], scale=np.exp(p[0]))
        elif kind == "uniform":
            r = S.uniform.logpdf(x, p[0], p[1] - p[0])
        elif kind == "poisson":
            r = S.poisson.logpmf(x, p[0])
        elif kind == "bernoulli":
            r = S.bernoulli.logpmf(x, p[0])
        elif kind == "binomial":
            r = S.binom.logpmf(x, p[0], p[1])
        elif kind == "nbinom":
            r = S.nbinom.logpmf(x, p[0], p[1])
        elif kind == "t":
            r = S.t.logpdf(x, p[0], p[1], p[2])
        elif kind == "multivariate_normal":
            return float(S.multivariate_normal.logpdf(x, p[0], p[1]))
        elif kind == "dirichlet":
            a = np.asarray(p[0])
            from scipy.special import gammaln

            if np.any(x <= 0) or not np.isclose(x.sum(-1), 1.0).all():
                return -np.inf
            return float(np.sum(gammaln(a.sum(-1)) - gammaln(a).sum(-1) + ((a - 1) * np.log(x)).sum(-1)))
        else:
            raise ValueError(f"no oracle density for {kind}")
    return float(np.sum(np.broadcast_to(r, np.broadcast_shapes(np.shape(r), x.shape))))


class Joint:
    def __init__(self, m):
        self.m = m
        self.ph = {rv: rv.type(f"val_{i}") for i, rv in enumerate(m.rvs)}
        pars = [p for rv in m.rvs for p in rv.owner.inputs[3:]]
        self.counts = [len(rv.owner.inputs[3:]) for rv in m.rvs]
        new = clone_replace(pars, self.ph) if pars else []
        self.fn = aesara.function(list(m.data) + list(self.ph.values()), new, on_unused_input="ignore", mode="FAST_COMPILE")

    def params(self, vals):
        m = self.m
        r = self.fn(*m.data.values(), *[np.asarray(vals[rv], dtype=rv.type.dtype) for rv in m.rvs])
        out = {}
        for rv, c in zip(m.rvs, self.counts):
            out[rv], r = r[:c], r[c:]
        return out

    def terms(self, vals):
        ps = self.params(vals)
        return {rv: logpdf(rv.owner.op.name, ps[rv], vals[rv]) for rv in self.m.rvs}

    def __call__(self, vals):
        return sum(self.terms(vals).values())


def in_support(kind, p, x, tol=1e-9):
    """True if every element of `x` lies in the support of the family."""
    x = np.asarray(x)
    if not np.all(np.isfinite(x)):
        return False
    if kind in ("gamma", "invgamma", "exponential", "lognormal", "chisquare"):
        return bool(np.all(x >= 0))
    if kind in ("halfnormal", "halfcauchy"):
        return bool(np.all(x >= np.asarray(p[0]) - tol))
    if kind == "beta":
        return bool(np.all((x >= 0) & (x <= 1)))
    if kind == "uniform":
        return bool(np.all((x >= np.asarray(p[0]) - tol) & (x <= np.asarray(p[1]) + tol)))
    if kind == "dirichlet":
        return bool(np.all(x >= 0) and np.allclose(x.sum(-1), 1.0))
    return True
