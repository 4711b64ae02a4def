"""A battery of user models on which the properties of whole samplers are decided.

Every entry builds a fresh model with the public Aesara API.  `data` holds the values of the
user's data inputs; the values of the random variables themselves come from joint prior draws.
"""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, io_toposort
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable


class Model:
    def __init__(self, name, srng, obs, data=None, shared=()):
        self.name, self.srng = name, srng
        if not isinstance(obs, dict):
            obs = {rv: rv.clone() for rv in (obs if isinstance(obs, (list, tuple)) else [obs])}
        self.obs = obs
        self.data = dict(data or {})
        self.shared = list(shared)
        self.nodes = [n for n in io_toposort([], list(obs)) if isinstance(n.op, RandomVariable)]
        self.rvs = [n.outputs[1] for n in self.nodes]
        self.latents = [rv for rv in self.rvs if rv not in obs]

    def label(self, rv):
        return rv.name or f"{rv.owner.op.name}#{self.rvs.index(rv)}"

    def generators(self):
        return [n.inputs[0] for n in self.nodes]

    def parents(self, rv):
        """The random variables `rv` directly depends on."""
        blocked, res, seen, stack = set(self.rvs), [], set(), list(rv.owner.inputs)
        while stack:
            v = stack.pop()
            if v in seen:
                continue
            seen.add(v)
            if v in blocked:
                res.append(v)
            elif v.owner is not None:
                stack.extend(v.owner.inputs)
        return res

    def blanket(self, rv):
        """The random variables the full conditional of `rv` may depend on."""
        res = set(self.parents(rv))
        for c in self.rvs:
            ps = self.parents(c)
            if rv in ps:
                res.add(c)
                res.update(ps)
        res.discard(rv)
        return res

    def prior_values(self, seed, tries=50):
        """{rv: value} of one joint prior draw, with usable (finite, non-extreme) latent values."""
        if not hasattr(self, "_prior"):
            self._prior = aesara.function(list(self.data), list(self.rvs), on_unused_input="ignore", mode="FAST_COMPILE")
        # the model's own generators are put back afterwards
        gens = [g for g in dict.fromkeys(self.generators()) if isinstance(g, SharedVariable)]
        old = [g.get_value() for g in gens]
        try:
            for k in range(tries):
                for i, g in enumerate(gens):
                    g.set_value(np.random.default_rng([seed, k, i, 77]))
                try:
                    vals = self._prior(*self.data.values())
                except ValueError:  # NumPy rejects extreme parameters
                    continue
                if all(np.all(np.isfinite(v)) for v in vals) and all(
                    np.all(np.abs(v) < 40) for rv, v in zip(self.rvs, vals) if rv in self.latents
                ) and all(np.all(np.abs(v) > 1e-3) for rv, v in zip(self.rvs, vals) if rv in self.latents) and all(
                    np.all(np.abs(v) < 1e4) for rv, v in zip(self.rvs, vals) if rv not in self.latents and v.dtype.kind in "iu"
                ):
                    res = dict(zip(self.rvs, vals))
                    for rv, v in self.obs.items():
                        if isinstance(v, Constant):
                            res[rv] = v.data
                        elif isinstance(v, SharedVariable):
                            res[rv] = v.get_value()
                    return res
        finally:
            for g, o in zip(gens, old):
                g.set_value(o)
        raise RuntimeError(f"no usable prior draw for {self.name}")


MODELS = {}


EXTRA = {}  # not part of the battery


def model(f):
    MODELS[f.__name__] = f
    return f


def extra(f):
    EXTRA[f.__name__] = f
    return f


def get(name, seed=0, observe=(), **kw):
    """The model `name`; the latent variables at the positions `observe` of `rvs` are observed, too."""
    m = (MODELS.get(name) or EXTRA[name])(RandomStream(seed), **kw)
    if observe:
        obs = dict(m.obs)
        for i in observe:
            obs[m.rvs[i]] = m.rvs[i].clone()
        m = Model(m.name, m.srng, obs, m.data, m.shared)
    return m


def single_variants(name):
    """Positions of the latent variables whose observation leaves another latent variable."""
    m = get(name)
    return [(m.rvs.index(rv),) for rv in m.latents] if len(m.latents) > 1 else []


def _X(n, p, seed=3):
    return np.random.default_rng(seed).normal(size=(n, p))


# ------------------------------------------------------------------ conjugate steps
@model
def gamma_poisson(s):
    a, r = at.dscalar("a"), at.dscalar("r")
    lam = s.gamma(a, r, size=3, name="lam")
    y = s.poisson(lam, name="y")
    return Model("gamma_poisson", s, y, {a: 2.5, r: 0.7})


@model
def gamma_poisson_hyper(s):
    r = s.gamma(3.0, 2.0, name="r")
    a = s.uniform(1.0, 4.0, name="a")
    lam = s.gamma(a, r, size=4, name="lam")
    y = s.poisson(lam, name="y")
    return Model("gamma_poisson_hyper", s, y)


@model
def beta_binomial(s):
    n = at.lvector("n")
    b = s.gamma(2.0, 1.0, name="b")
    p = s.beta(1.5, b, size=3, name="p")
    y = s.binomial(n, p, name="y")
    return Model("beta_binomial", s, y, {n: np.array([5, 9, 2])})


@model
def beta_nbinom(s):
    h = s.gamma(4.0, 1.0, name="h")
    p = s.beta(2.0, 2.0, size=3, name="p")
    y = s.nbinom(h, p, name="y")
    return Model("beta_nbinom", s, y)


# ------------------------------------------------------------------ horseshoe and regressions
@model
def horseshoe_normal(s):
    X = at.matrix("X")
    tau = s.halfcauchy(0, 1, name="tau")
    lam = s.halfcauchy(0, 1, size=3, name="lam")
    beta = s.normal(0, lam * tau, size=3, name="beta")
    sigma = s.gamma(4.0, 4.0, name="sigma")
    y = s.normal(X.dot(beta), sigma, name="y")
    return Model("horseshoe_normal", s, y, {X: _X(5, 3)})


@model
def nb_regression(s):
    X = at.matrix("X")
    h = at.dscalar("h")
    beta = s.normal(0, 1.3, size=2, name="beta")
    y = s.nbinom(h, at.sigmoid(-X.dot(beta)), name="y")
    return Model("nb_regression", s, y, {X: _X(6, 2), h: 3.0})


@model
def nb_horseshoe_dispersion(s):
    X = at.matrix("X")
    tau = s.halfcauchy(0, 1, size=1, name="tau")
    lam = s.halfcauchy(0, 1, size=2, name="lam")
    beta = s.normal(0, tau * lam, size=2, name="beta")
    h = s.gamma(5.0, 2.0, name="h")
    y = s.nbinom(h, at.sigmoid(-X.dot(beta)), name="y")
    return Model("nb_horseshoe_dispersion", s, y, {X: _X(5, 2)})


@model
def nb_dispersion_hyper(s):
    X = at.matrix("X")
    a = s.gamma(6.0, 2.0, name="a")
    beta = s.normal(0, 0.8, size=2, name="beta")
    h = s.gamma(a, 1.5, name="h")
    y = s.nbinom(h, at.sigmoid(-(X @ beta)), name="y")
    return Model("nb_dispersion_hyper", s, y, {X: _X(5, 2)})


@model
def bernoulli_regression(s):
    X = at.matrix("X")
    sd = s.gamma(3.0, 2.0, name="sd")
    beta = s.normal(0, sd, size=3, name="beta")
    y = s.bernoulli(at.sigmoid(-X.dot(beta)), name="y")
    return Model("bernoulli_regression", s, y, {X: _X(6, 3)})


@model
def bernoulli_horseshoe(s):
    X = at.matrix("X")
    tau = s.halfcauchy(0, 1, size=1, name="tau")
    lam = s.halfcauchy(0, 1, size=4, name="lam")
    beta = s.normal(0, tau * lam, size=4, name="beta")
    y = s.bernoulli(at.sigmoid(-X.dot(beta)), name="y")
    return Model("bernoulli_horseshoe", s, y, {X: _X(3, 4)})


# ------------------------------------------------------------------ gradient-based steps
@model
def normal_hierarchy(s):
    mu = s.normal(0.5, 2.0, name="mu")
    sd = s.gamma(3.0, 2.0, name="sd")
    th = s.normal(mu, sd, size=3, name="th")
    y = s.normal(th, 0.7, name="y")
    return Model("normal_hierarchy", s, y)


@model
def same_shapes(s):
    """Latent variables of the same type and shape with different roles."""
    a = s.normal(1.0, 2.0, size=2, name="a")
    b = s.normal(-1.0, 0.5, size=2, name="b")
    c = s.normal(a - 2.0 * b, 1.5, name="c")
    d = s.gamma(2.0, 1.0, size=2, name="d")
    e = s.gamma(3.0, d, name="e")
    y = s.normal(c * e, d, name="y")
    return Model("same_shapes", s, y)


@model
def mixed_groups(s):
    """Closed-form, horseshoe and gradient-based steps in one model."""
    X = at.matrix("X")
    mu = s.normal(0.0, 1.0, name="mu")
    lam = s.gamma(2.0 + at.exp(mu), 1.5, size=3, name="lam")
    z = s.poisson(lam, name="z")
    tau = s.halfcauchy(0, 1, name="tau")
    loc = s.halfcauchy(0, 1, size=2, name="loc")
    beta = s.normal(0, loc * tau, size=2, name="beta")
    y = s.normal(X.dot(beta) + mu, 0.5, name="y")
    return Model("mixed_groups", s, [z, y], {X: _X(4, 2)})


@model
def uniform_bounds(s):
    """Supports that depend on other random variables, including closed-form sampled ones."""
    lo = s.gamma(2.0, 1.0, name="lo")
    hi = lo + s.exponential(2.0, name="width")
    u = s.uniform(lo, hi, size=2, name="u")
    k = s.poisson(lo, name="k")
    y = s.normal(u, 0.3, name="y")
    return Model("uniform_bounds", s, [k, y])


@model
def transforms_zoo(s):
    """One variable of each supported family with a default transform."""
    g = s.gamma(2.0, 1.0, name="g")
    b = s.beta(2.0, 1.5 + g, name="b")
    ig = s.invgamma(3.0, 2.0, name="ig")
    e = s.exponential(1.5, name="e")
    hn = s.halfnormal(0.0, e, name="hn")
    hc = s.halfcauchy(0.0, 1.0, name="hc")
    ln = s.lognormal(0.1, 0.4, name="ln")
    u = s.uniform(-1.0, b, name="u")
    y = s.normal(b + u * ln, ig + hn * hc, size=4, name="y")
    return Model("transforms_zoo", s, y)


@model
def real_zoo(s):
    """Families on the real line."""
    l = s.laplace(0.5, 1.2, name="l")
    c = s.cauchy(l, 0.8, name="c")
    lo = s.logistic(c, 1.1, name="lo")
    gu = s.gumbel(0.2, 0.9, size=2, name="gu")
    y = s.normal(lo + gu, 1.0, name="y")
    return Model("real_zoo", s, y)


@model
def matrices(s):
    """Matrix-valued latent variables (ravelling order)."""
    m = s.normal(0.0, 1.0, size=(2, 3), name="m")
    sc = s.gamma(2.0, 2.0, size=(3,), name="sc")
    y = s.normal(m, sc, name="y")
    return Model("matrices", s, y)


@model
def constrained_arrays(s):
    """Arrays of several dimensions with constrained supports."""
    g = s.gamma(2.0, 1.0, size=(2, 3), name="g")
    b = s.beta(2.0, 1.0 + g, name="b")
    u = s.uniform(-1.0, g, name="u")
    hn = s.halfnormal(0.0, 1.0, size=(2, 1, 3), name="hn")
    y = s.normal(b * u, 0.1 + hn, name="y")
    return Model("constrained_arrays", s, y)


@model
def mvnormal_latent(s):
    m = np.array([0.3, -0.5, 1.0])
    C = np.array([[1.0, 0.3, 0.1], [0.3, 2.0, -0.4], [0.1, -0.4, 1.5]])
    v = s.multivariate_normal(m, C, name="v")
    y = s.normal(v, 0.6, name="y")
    return Model("mvnormal_latent", s, y)


@model
def dirichlet_latent(s):
    w = s.dirichlet(np.array([1.5, 2.0, 3.0]), name="w")
    x = at.vector("x")
    y = s.normal(w[0] * x + w[1] * 2.0 - w[2], 0.5, name="y")
    return Model("dirichlet_latent", s, y, {x: np.array([0.5, -1.0, 2.0])})


@model
def shared_data(s):
    x = aesara.shared(np.array([0.4, -1.3, 0.9]), name="x")
    k = aesara.shared(np.array([2.0, 5.0, 1.0]), name="k")
    w = s.normal(0.0, k[0], name="w")
    y = s.normal(w * x, 1.0, name="y")
    lam = s.gamma(2.0, k[1], size=3, name="lam")
    z = s.poisson(lam, name="z")
    return Model("shared_data", s, [y, z], shared=[x, k])


@model
def unnamed(s):
    a = s.normal(0, 1)
    b = s.gamma(2.0, 1.0)
    c = s.normal(a, b, size=2)
    y = s.normal(c, 1.0)
    return Model("unnamed", s, y)


@model
def deterministic(s):
    """Deterministic expressions shared between the observed variables."""
    a = s.normal(0.3, 1.0, size=3, name="a")
    b = s.gamma(2.0, 1.0, name="b")
    d = at.exp(0.2 * a).sum() + b
    y = s.normal(d, 1.0, size=2, name="y")
    x = s.gamma(d, 1.0 + b, name="x")
    return Model("deterministic", s, [x, y])


@model
def observed_parent(s):
    """An observed variable that is the parent of a latent one."""
    x = s.normal(0.0, 1.0, size=2, name="x")
    g = s.gamma(2.0, 1.0, name="g")
    w = s.normal(x, g, name="w")
    y = s.normal(w * x, 1.0, name="y")
    return Model("observed_parent", s, [x, y])


@model
def observed_constant(s):
    """Observations given as constants."""
    m = s.normal(0.0, 2.0, name="m")
    lam = s.gamma(2.0, 1.0, name="lam")
    y = s.normal(m, lam, size=3, name="y")
    k = s.poisson(lam, name="k")
    return Model("observed_constant", s, {y: at.as_tensor(np.array([0.1, -0.4, 1.7])), k: at.as_tensor(np.int64(2))})


@extra
def shared_counter(s):
    """Shared data that is advanced by every call (a default update of the user's)."""
    k = aesara.shared(np.array([2.0, 5.0, 1.0]), name="k")
    k.default_update = 0.5 * k + 1.0
    w = s.normal(0.0, k[0], name="w")
    y = s.normal(w * k, 1.0, name="y")
    lam = s.gamma(2.0, k[1], size=3, name="lam")
    z = s.poisson(lam, name="z")
    return Model("shared_counter", s, [y, z], shared=[k])
