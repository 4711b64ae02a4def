"""Models that are one step away from those the specialised steps are valid for.

Every entry is (model, labels of the variables that must have a specialised step or None).
No expectation is written down about what must *not* happen: whether a step that was chosen is
valid is decided by `hypotheses` from the model itself.
"""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

from .models import Model, _X

NEAR = {}


def near(family, must=()):
    def deco(f):
        NEAR[f.__name__] = (family, f, tuple(must))
        return f
    return deco


def get(name, seed=0):
    fam, f, must = NEAR[name]
    r = f(RandomStream(seed))
    obs, data = r[0], (r[1] if len(r) > 1 else {})
    return Model(name, r[2] if len(r) > 2 else None, obs, data), must


def simple(family, name, build, must=()):
    """`build(s)` returns (observed, data)."""
    def f(s):
        r = build(s)
        obs, data = r if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict) else (r, {})
        return obs, data, s
    NEAR[name] = (family, f, tuple(must))


# ------------------------------------------------------------------ gamma / Poisson
def gp(name, link=lambda l: l, size=3, obs=None, more=None, prior=None, must=()):
    def build(s):
        lam = prior(s) if prior else s.gamma(2.0, 1.5, size=size, name="lam")
        y = obs(s, lam) if obs else s.poisson(link(lam), name="y")
        o = [y] + (list(more(s, lam, y)) if more else [])
        return o, {}
    simple("conjugate", "gp_" + name, build, must)


gp("plain", must=["lam"])
gp("plain_matrix", size=(2, 3), must=["lam"])
gp("plain_cube", size=(2, 1, 3), must=["lam"])
gp("plain_one", size=1, must=["lam"])
gp("plain_scalar", prior=lambda s: s.gamma(2.0, 1.5, name="lam"), must=["lam"])
gp("explicit_size", obs=lambda s, l: s.poisson(l, size=3, name="y"))
gp("scaled", link=lambda l: 2.0 * l)
gp("shifted", link=lambda l: l + 1.0)
gp("squared", link=lambda l: l**2)
gp("sqrt", link=lambda l: at.sqrt(l))
gp("exp", link=lambda l: at.exp(l))
gp("reciprocal", link=lambda l: 1.0 / l)
gp("reversed", link=lambda l: l[::-1])
gp("transposed", size=(2, 3), link=lambda l: l.T)
gp("transposed_square", size=(3, 3), link=lambda l: l.T)
gp("flattened", size=(2, 3), link=lambda l: l.flatten())
gp("reshaped", size=4, link=lambda l: l.reshape((2, 2)))
gp("sum", link=lambda l: l.sum())
gp("cumsum", link=lambda l: at.cumsum(l))
gp("element", link=lambda l: l[0])
gp("slice", link=lambda l: l[:2])
gp("permuted", link=lambda l: l[np.array([2, 0, 1])])
gp("repeated_index", link=lambda l: l[np.array([0, 0, 1, 2])])
gp("broadcast_size", prior=lambda s: s.gamma(2.0, 1.5, name="lam"), obs=lambda s, l: s.poisson(l, size=3, name="y"))
gp("broadcast_ones", prior=lambda s: s.gamma(2.0, 1.5, name="lam"), obs=lambda s, l: s.poisson(l * np.array([1.0, 1.0]), name="y"))
gp("broadcast_one_column", size=1, obs=lambda s, l: s.poisson(l, size=3, name="y"))
gp("broadcast_rows", obs=lambda s, l: s.poisson(l, size=(2, 3), name="y"))
gp("broadcast_dimshuffle", obs=lambda s, l: s.poisson(l[None, :], size=(2, 3), name="y"))
gp("broadcast_row_of_one", obs=lambda s, l: s.poisson(l[None, :], name="y"))
gp("exponential_prior", prior=lambda s: s.exponential(1.5, size=3, name="lam"))
gp("invgamma_prior", prior=lambda s: s.invgamma(3.0, 1.5, size=3, name="lam"))
gp("lognormal_prior", prior=lambda s: s.lognormal(0.0, 0.5, size=3, name="lam"))
gp("halfnormal_prior", prior=lambda s: s.halfnormal(0.0, 1.5, size=3, name="lam"))
gp("gamma_plus_gamma", link=lambda l: l, obs=lambda s, l: s.poisson(l + s.gamma(1.5, 1.0, size=3, name="mu"), name="y"))
gp("product_of_gammas", obs=lambda s, l: s.poisson(l * s.gamma(1.5, 1.0, size=3, name="mu"), name="y"))
gp("two_observations", more=lambda s, l, y: [s.poisson(l, name="z")])
gp("two_observations_link", more=lambda s, l, y: [s.poisson(2.0 * l, name="z")])
gp("second_normal", more=lambda s, l, y: [s.normal(l, 1.0, name="z")])
gp("second_normal_scale", more=lambda s, l, y: [s.normal(0.0, l, name="z")])
gp("second_through_sum", more=lambda s, l, y: [s.normal(at.log(l).sum(), 1.0, name="z")])
gp("hyper_of_latent", more=lambda s, l, y: [s.normal(s.normal(0.0, l, name="w"), 1.0, name="z")])
gp("observed_parent", more=lambda s, l, y: [s.normal(y * 0.1, 1.0, name="z")], must=["lam"])
gp("observed_parent_other_latent", more=lambda s, l, y: [s.normal(s.normal(0.1 * y, 1.0, name="w"), 1.0, name="z")], must=["lam"])
gp("also_second_with_observed", more=lambda s, l, y: [s.normal(l + y, 1.0, name="z")])
gp("two_pairs", more=lambda s, l, y: [s.poisson(s.gamma(3.0, 0.5, size=3, name="mu"), name="z")], must=["lam", "mu"])
gp("three_pairs_chained", more=lambda s, l, y: [s.poisson(s.gamma(1.0 + y, 0.5, name="mu"), name="z")], must=["lam", "mu"])
gp("hyper_latent", prior=lambda s: s.gamma(2.0, s.gamma(2.0, 1.0, name="r"), size=3, name="lam"), must=["lam"])
gp("chain_of_gammas", prior=lambda s: s.gamma(1.0 + s.gamma(2.0, 1.0, size=3, name="r"), 1.5, name="lam"), must=["lam"])
gp("hyper_with_observation", prior=lambda s: s.gamma(2.0, s.gamma(2.0, 1.0, size=3, name="r"), name="lam"),
   obs=lambda s, l: [s.poisson(l, name="y"), s.poisson(l.owner.inputs[4], name="z")][0])
gp("indexed_pair", size=3, obs=lambda s, l: s.poisson(l[0], name="y"), more=lambda s, l, y: [s.poisson(l[1], name="z")])


# ------------------------------------------------------------------ beta / binomial, negative binomial
def bb(name, obs, prior=None, more=None, must=()):
    def build(s):
        p = prior(s) if prior else s.beta(2.0, 1.5, size=3, name="p")
        y = obs(s, p)
        return [y] + (list(more(s, p, y)) if more else []), {}
    simple("conjugate", "bb_" + name, build, must)


N3 = np.array([4, 7, 3])
bb("plain", lambda s, p: s.binomial(N3, p, name="y"), must=["p"])
bb("plain_scalar", lambda s, p: s.binomial(5, p, name="y"), prior=lambda s: s.beta(2.0, 1.5, name="p"), must=["p"])
bb("complement", lambda s, p: s.binomial(N3, 1.0 - p, name="y"))
bb("halved", lambda s, p: s.binomial(N3, 0.5 * p, name="y"))
bb("squared", lambda s, p: s.binomial(N3, p * p, name="y"))
bb("reversed", lambda s, p: s.binomial(N3, p[::-1], name="y"))
bb("scalar_many", lambda s, p: s.binomial(N3, p, name="y"), prior=lambda s: s.beta(2.0, 1.5, name="p"))
bb("scalar_many_size", lambda s, p: s.binomial(5, p, size=3, name="y"), prior=lambda s: s.beta(2.0, 1.5, name="p"))
bb("counts_matrix", lambda s, p: s.binomial(np.array([[4, 7, 3], [2, 9, 1]]), p, name="y"))
bb("uniform_prior", lambda s, p: s.binomial(N3, p, name="y"), prior=lambda s: s.uniform(0.0, 1.0, size=3, name="p"))
bb("two_observations", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.binomial(N3, p, name="z")])
bb("two_families", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.nbinom(4.0, p, name="z")])
bb("second_bernoulli", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.bernoulli(p, name="z")])
bb("second_normal", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.normal(p.sum(), 1.0, name="z")])
bb("bernoulli", lambda s, p: s.bernoulli(p, name="y"))
bb("geometric_like", lambda s, p: s.nbinom(1.0, p, name="y"), must=["p"])
bb("two_pairs", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.binomial(N3, s.beta(0.7, 3.0, size=3, name="q"), name="z")], must=["p", "q"])
bb("pairs_of_families", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.nbinom(4.0, s.beta(0.7, 3.0, size=3, name="q"), name="z"), s.poisson(s.gamma(2.0, 3.0, size=3, name="r"), name="w")], must=["p", "q", "r"])
bb("count_is_observed", lambda s, p: s.binomial(N3, p, name="y"), more=lambda s, p, y: [s.binomial(y, s.beta(0.7, 3.0, size=3, name="q"), name="z")], must=["p", "q"])
bb("nb_plain", lambda s, p: s.nbinom(4.0, p, name="y"), must=["p"])
bb("nb_scaled", lambda s, p: s.nbinom(4.0, 0.5 * p, name="y"))
bb("nb_complement", lambda s, p: s.nbinom(4.0, 1.0 - p, name="y"))
bb("nb_dispersion_too", lambda s, p: s.nbinom(1.0 + p, p, name="y"))
bb("nb_dispersion_only", lambda s, p: s.nbinom(1.0 + p, 0.4, name="y"))
bb("nb_scalar_many", lambda s, p: s.nbinom(np.array([2.0, 3.0]), p, name="y"), prior=lambda s: s.beta(2.0, 1.5, name="p"))
bb("nb_scalar_size", lambda s, p: s.nbinom(2.0, p, size=4, name="y"), prior=lambda s: s.beta(2.0, 1.5, name="p"))
bb("nb_latent_dispersion", lambda s, p: s.nbinom(s.gamma(2.0, 1.0, name="h"), p, name="y"), must=["p"])
bb("latent_hyper", lambda s, p: s.binomial(N3, p, name="y"), prior=lambda s: s.beta(s.gamma(2.0, 1.0, name="a"), 1.5, size=3, name="p"), must=["p"])


# ------------------------------------------------------------------ horseshoe
def hs(name, tau=None, lam=None, beta=None, obs=None, more=None, p=3, must=()):
    def build(s):
        X = at.matrix("X")
        t_ = tau(s) if tau else s.halfcauchy(0, 1, name="tau")
        l_ = lam(s) if lam else s.halfcauchy(0, 1, size=p, name="lam")
        b_ = beta(s, l_, t_) if beta else s.normal(0, l_ * t_, size=p, name="beta")
        y = obs(s, X, b_, l_, t_) if obs else s.normal(X.dot(b_), 1.0, name="y")
        return [y] + (list(more(s, X, b_, l_, t_)) if more else []), {X: _X(4, p)}
    simple("horseshoe", "hs_" + name, build, must)


hs("plain", must=["lam", "tau"])
hs("swapped_factors", beta=lambda s, l, t_: s.normal(0, t_ * l, size=3, name="beta"), must=["lam", "tau"])
hs("no_size", beta=lambda s, l, t_: s.normal(0, l * t_, name="beta"), must=["lam", "tau"])
hs("tau_of_size_one", tau=lambda s: s.halfcauchy(0, 1, size=1, name="tau"), must=["lam", "tau"])
hs("zero_vector_mean", beta=lambda s, l, t_: s.normal(np.zeros(3), l * t_, name="beta"))
hs("mean", beta=lambda s, l, t_: s.normal(0.5, l * t_, size=3, name="beta"))
hs("mean_vector", beta=lambda s, l, t_: s.normal(np.array([0.0, 0.0, 1.0]), l * t_, name="beta"))
hs("mean_latent", beta=lambda s, l, t_: s.normal(s.normal(0.0, 1.0, name="mu"), l * t_, size=3, name="beta"))
hs("factor", beta=lambda s, l, t_: s.normal(0, 2.0 * l * t_, size=3, name="beta"))
hs("factor_other_order", beta=lambda s, l, t_: s.normal(0, l * (t_ * 0.5), size=3, name="beta"))
hs("factor_vector", beta=lambda s, l, t_: s.normal(0, np.array([1.0, 2.0, 3.0]) * l * t_, name="beta"))
hs("noise_factor", beta=lambda s, l, t_: s.normal(0, l * t_ * s.gamma(3.0, 2.0, name="sigma"), size=3, name="beta"))
hs("halved", beta=lambda s, l, t_: s.normal(0, l * t_ / 2.0, size=3, name="beta"))
hs("quotient", beta=lambda s, l, t_: s.normal(0, l / t_, size=3, name="beta"))
hs("sum", beta=lambda s, l, t_: s.normal(0, l + t_, size=3, name="beta"))
hs("squares", beta=lambda s, l, t_: s.normal(0, l**2 * t_**2, size=3, name="beta"))
hs("sqrt_local", beta=lambda s, l, t_: s.normal(0, at.sqrt(l) * t_, size=3, name="beta"))
hs("sqrt_product", beta=lambda s, l, t_: s.normal(0, at.sqrt(l * t_), size=3, name="beta"))
hs("local_squared", beta=lambda s, l, t_: s.normal(0, l * l * t_, size=3, name="beta"))
hs("global_squared", beta=lambda s, l, t_: s.normal(0, l * t_ * t_, size=3, name="beta"))
hs("reversed_local", beta=lambda s, l, t_: s.normal(0, l[::-1] * t_, name="beta"))
hs("laplace", beta=lambda s, l, t_: s.laplace(0, l * t_, size=3, name="beta"))
hs("cauchy", beta=lambda s, l, t_: s.cauchy(0, l * t_, size=3, name="beta"))
hs("logistic", beta=lambda s, l, t_: s.logistic(0, l * t_, size=3, name="beta"))
hs("local_scale", lam=lambda s: s.halfcauchy(0, 2, size=3, name="lam"))
hs("local_scale_vector", lam=lambda s: s.halfcauchy(0, np.array([1.0, 1.0, 2.0]), name="lam"))
hs("local_scale_latent", lam=lambda s: s.halfcauchy(0, s.gamma(2.0, 1.0, name="g"), size=3, name="lam"))
hs("local_location", lam=lambda s: s.halfcauchy(1, 1, size=3, name="lam"))
hs("global_scale", tau=lambda s: s.halfcauchy(0, 0.5, name="tau"))
hs("global_location", tau=lambda s: s.halfcauchy(0.5, 1, name="tau"))
hs("global_scale_data", tau=lambda s: s.halfcauchy(0, aesara.shared(np.array(0.3), name="c"), name="tau"))
hs("half_normal_local", lam=lambda s: s.halfnormal(0, 1, size=3, name="lam"))
hs("half_normal_global", tau=lambda s: s.halfnormal(0, 1, name="tau"))
hs("half_normal_both", lam=lambda s: s.halfnormal(0, 1, size=3, name="lam"), tau=lambda s: s.halfnormal(0, 1, name="tau"))
hs("exponential_local", lam=lambda s: s.exponential(1.0, size=3, name="lam"))
hs("gamma_global", tau=lambda s: s.gamma(2.0, 1.0, name="tau"))
hs("cauchy_abs_local", lam=lambda s: abs(s.cauchy(0, 1, size=3, name="lam")))
hs("constant_global", tau=lambda s: at.as_tensor(0.5))
hs("constant_local", lam=lambda s: at.as_tensor(np.array([0.5, 1.0, 2.0])))
hs("only_local", beta=lambda s, l, t_: s.normal(0, l, name="beta"))
hs("only_global", beta=lambda s, l, t_: s.normal(0, t_, size=3, name="beta"))
hs("two_vectors", tau=lambda s: s.halfcauchy(0, 1, size=3, name="tau"))
hs("two_scalars", lam=lambda s: s.halfcauchy(0, 1, name="lam"))
hs("local_of_size_one", lam=lambda s: s.halfcauchy(0, 1, size=1, name="lam"))
hs("one_coefficient", p=1)
hs("scalar_coefficient", lam=lambda s: s.halfcauchy(0, 1, name="lam"), beta=lambda s, l, t_: s.normal(0, l * t_, name="beta"), obs=lambda s, X, b, l, t_: s.normal(b * X.sum(), 1.0, name="y"))
hs("matrix_coefficients", beta=lambda s, l, t_: s.normal(0, l * t_, size=(2, 3), name="beta"), obs=lambda s, X, b, l, t_: s.normal(X.dot(b.T), 1.0, name="y"))
hs("matrix_local", lam=lambda s: s.halfcauchy(0, 1, size=(2, 3), name="lam"), beta=lambda s, l, t_: s.normal(0, l * t_, name="beta"), obs=lambda s, X, b, l, t_: s.normal(X.dot(b.T), 1.0, name="y"))
hs("row_of_coefficients", lam=lambda s: s.halfcauchy(0, 1, size=(1, 3), name="lam"), beta=lambda s, l, t_: s.normal(0, l * t_, name="beta"), obs=lambda s, X, b, l, t_: s.normal(X.dot(b.T), 1.0, name="y"))
hs("shared_global", more=lambda s, X, b, l, t_: [s.normal(s.normal(0, s.halfcauchy(0, 1, size=3, name="lam2") * t_, size=3, name="beta2"), 1.0, name="z")])
hs("shared_local", more=lambda s, X, b, l, t_: [s.normal(s.normal(0, l * s.halfcauchy(0, 1, name="tau2"), size=3, name="beta2"), 1.0, name="z")])
hs("shared_both", more=lambda s, X, b, l, t_: [s.normal(s.normal(0, l * t_, size=3, name="beta2"), 1.0, name="z")])
hs("global_is_noise", obs=lambda s, X, b, l, t_: s.normal(X.dot(b), t_, name="y"))
hs("local_in_likelihood", obs=lambda s, X, b, l, t_: s.normal(X.dot(b) + l.sum(), 1.0, name="y"))
hs("global_in_mean", beta=lambda s, l, t_: s.normal(0 * t_, l * t_, size=3, name="beta"))
hs("global_observed_elsewhere", more=lambda s, X, b, l, t_: [s.normal(t_, 1.0, name="z")])
hs("two_groups", more=lambda s, X, b, l, t_: [s.normal(X.dot(s.normal(0, s.halfcauchy(0, 1, size=3, name="lam2") * s.halfcauchy(0, 1, name="tau2"), size=3, name="beta2")), 1.0, name="z")], must=["lam", "tau", "lam2", "tau2"])
hs("poisson_regression", obs=lambda s, X, b, l, t_: s.poisson(at.exp(0.2 * X.dot(b)), name="y"), must=["lam", "tau"])
hs("noise_variance", obs=lambda s, X, b, l, t_: s.normal(X.dot(b), s.gamma(2.0, 1.0, name="sd"), name="y"), must=["lam", "tau"])


# ------------------------------------------------------------------ logistic regressions
def lr(name, link=lambda X, b: at.sigmoid(-X.dot(b)), beta=None, obs=None, more=None, h=None, X_=None, fam="bern", p=2, n=5, must=()):
    def build(s):
        X = at.matrix("X")
        b_ = beta(s) if beta else s.normal(0, 1.3, size=p, name="beta")
        Xe = X_(s, X, b_) if X_ else X
        q = link(Xe, b_)
        if obs:
            y = obs(s, X, b_, q)
        elif fam == "bern":
            y = s.bernoulli(q, name="y")
        else:
            y = s.nbinom(h(s, b_) if h else 3.0, q, name="y")
        return [y] + (list(more(s, X, b_, y)) if more else []), {X: _X(n, p)}
    simple("regression", f"{fam}_{name}", build, must)


for fam in ("bern", "nb"):
    lr("plain", fam=fam, must=["beta"])
    lr("plain_wide", fam=fam, p=4, n=3, must=["beta"])
    lr("operator", link=lambda X, b: at.sigmoid(-(X @ b)), fam=fam, must=["beta"])
    lr("vector_scales", beta=lambda s: s.normal(0, np.array([0.5, 2.0]), name="beta"), fam=fam, must=["beta"])
    lr("latent_scale", beta=lambda s: s.normal(0, s.gamma(2.0, 2.0, name="sd"), size=2, name="beta"), fam=fam, must=["beta"])
    lr("latent_scales", beta=lambda s: s.normal(0, s.gamma(2.0, 2.0, size=2, name="sd"), name="beta"), fam=fam, must=["beta"])
    lr("horseshoe", beta=lambda s: s.normal(0, s.halfcauchy(0, 1, size=2, name="lam") * s.halfcauchy(0, 1, name="tau"), size=2, name="beta"), fam=fam, must=["beta", "lam", "tau"])
    lr("positive_sign", link=lambda X, b: at.sigmoid(X.dot(b)), fam=fam)
    lr("minus_two", link=lambda X, b: at.sigmoid(-2.0 * X.dot(b)), fam=fam)
    lr("half", link=lambda X, b: at.sigmoid(0.5 * X.dot(b)), fam=fam)
    lr("vector_factor", link=lambda X, b: at.sigmoid(np.array([-1.0, -1.0, -1.0, -1.0, 1.0]) * X.dot(b)), fam=fam)
    lr("vector_minus_one", link=lambda X, b: at.sigmoid(np.array([-1.0] * 5) * X.dot(b)), fam=fam)
    lr("negated_matrix", link=lambda X, b: at.sigmoid((-X).dot(b)), fam=fam)
    lr("negated_coefficients", link=lambda X, b: at.sigmoid(X.dot(-b)), fam=fam)
    lr("double_negation", link=lambda X, b: at.sigmoid(-((-X).dot(b))), fam=fam)
    lr("scaled_matrix", link=lambda X, b: at.sigmoid(-(2.0 * X).dot(b)), fam=fam)
    lr("transposed_gram", link=lambda X, b: at.sigmoid(-(X.T.dot(X)).dot(b)), fam=fam)
    lr("offset", link=lambda X, b: at.sigmoid(-(X.dot(b) + 0.5)), fam=fam)
    lr("offset_after", link=lambda X, b: at.sigmoid(-X.dot(b) + 0.5), fam=fam)
    lr("latent_offset", link=lambda X, b: at.sigmoid(-X.dot(b)), obs=(lambda s, X, b, q: s.bernoulli(at.sigmoid(-(X.dot(b) + s.normal(0, 1, name="mu"))), name="y")) if fam == "bern" else (lambda s, X, b, q: s.nbinom(2.0, at.sigmoid(-(X.dot(b) + s.normal(0, 1, name="mu"))), name="y")), fam=fam)
    lr("complement", link=lambda X, b: 1.0 - at.sigmoid(-X.dot(b)), fam=fam)
    lr("spelled_out", link=lambda X, b: 1.0 / (1.0 + at.exp(X.dot(b))), fam=fam)
    lr("spelled_out_positive", link=lambda X, b: 1.0 / (1.0 + at.exp(-X.dot(b))), fam=fam)
    lr("probit_like", link=lambda X, b: 0.5 + 0.5 * at.erf(-X.dot(b)), fam=fam)
    lr("halved_probability", link=lambda X, b: 0.5 * at.sigmoid(-X.dot(b)), fam=fam)
    lr("squared_coefficients", link=lambda X, b: at.sigmoid(-X.dot(b**2)), fam=fam)
    lr("exp_coefficients", link=lambda X, b: at.sigmoid(-X.dot(at.exp(b))), fam=fam)
    lr("scaled_coefficients", link=lambda X, b: at.sigmoid(-X.dot(0.5 * b)), fam=fam)
    lr("reversed_coefficients", link=lambda X, b: at.sigmoid(-X.dot(b[::-1])), fam=fam)
    lr("squared_predictor", link=lambda X, b: at.sigmoid(-X.dot(b) ** 2), fam=fam)
    lr("matrix_of_coefficients_dot", link=lambda X, b: at.sigmoid(-X.dot(b)), X_=lambda s, X, b: X * b, fam=fam)
    lr("latent_matrix", link=lambda X, b: at.sigmoid(-X.dot(b)), X_=lambda s, X, b: s.normal(X, 1.0, name="Xl"), fam=fam, must=["beta"])
    lr("mean", beta=lambda s: s.normal(0.5, 1.3, size=2, name="beta"), fam=fam)
    lr("mean_vector", beta=lambda s: s.normal(np.array([0.0, 1.0]), 1.3, name="beta"), fam=fam)
    lr("mean_latent", beta=lambda s: s.normal(s.normal(0.0, 1.0, name="mu"), 1.3, size=2, name="beta"), fam=fam)
    lr("cauchy", beta=lambda s: s.cauchy(0, 1.3, size=2, name="beta"), fam=fam)
    lr("laplace", beta=lambda s: s.laplace(0, 1.3, size=2, name="beta"), fam=fam)
    lr("logistic", beta=lambda s: s.logistic(0, 1.3, size=2, name="beta"), fam=fam)
    lr("halfnormal", beta=lambda s: s.halfnormal(0, 1.3, size=2, name="beta"), fam=fam)
    lr("correlated", beta=lambda s: s.multivariate_normal(np.zeros(2), np.array([[1.0, 0.5], [0.5, 2.0]]), name="beta"), fam=fam)
    lr("coefficient_matrix", beta=lambda s: s.normal(0, 1.3, size=(2, 3), name="beta"), fam=fam)
    lr("one_predictor", p=1, fam=fam, must=["beta"])
    lr("two_observations", more=lambda s, X, b, y: [s.bernoulli(at.sigmoid(-X.dot(b)), name="z")], fam=fam)
    lr("second_normal", more=lambda s, X, b, y: [s.normal(X.dot(b), 1.0, name="z")], fam=fam)
    lr("second_prior", more=lambda s, X, b, y: [s.normal(s.normal(b, 1.0, name="w"), 1.0, name="z")], fam=fam)
    lr("second_shrinkage", more=lambda s, X, b, y: [s.normal(b.sum(), 1.0, name="z")], fam=fam)
    lr("two_groups", more=lambda s, X, b, y: [s.bernoulli(at.sigmoid(-X.dot(s.normal(0, 0.7, size=2, name="gamma"))), name="z")], fam=fam, must=["beta", "gamma"])
    lr("two_groups_other_family", more=lambda s, X, b, y: [s.nbinom(2.0, at.sigmoid(-X.dot(s.normal(0, 0.7, size=2, name="gamma"))), name="z")], fam=fam, must=["beta", "gamma"])
    lr("observed_regressor", more=lambda s, X, b, y: [s.bernoulli(at.sigmoid(-(X * y[:, None]).dot(s.normal(0, 0.7, size=2, name="gamma"))), name="z")], fam=fam, must=["beta", "gamma"])

lr("binomial_counts", obs=lambda s, X, b, q: s.binomial(4, q, name="y"))
lr("geometric", obs=lambda s, X, b, q: s.geometric(q, name="y"))
lr("gamma_dispersion", h=lambda s, b: s.gamma(4.0, 2.0, name="h"), fam="nb", must=["beta", "h"])
lr("latent_gamma_dispersion", h=lambda s, b: s.gamma(s.gamma(4.0, 1.0, name="a"), 2.0, name="h"), fam="nb", must=["beta", "h"])
lr("gamma_dispersion_scaled", h=lambda s, b: 2.0 * s.gamma(4.0, 2.0, name="h"), fam="nb")
lr("gamma_dispersion_shifted", h=lambda s, b: 1.0 + s.gamma(4.0, 2.0, name="h"), fam="nb")
lr("gamma_dispersion_vector", h=lambda s, b: s.gamma(4.0, 2.0, size=5, name="h"), fam="nb")
lr("gamma_dispersion_of_size_one", h=lambda s, b: s.gamma(4.0, 2.0, size=1, name="h"), fam="nb")
lr("gamma_dispersion_elements", h=lambda s, b: s.gamma(4.0, 2.0, size=2, name="h")[0], fam="nb")
lr("exponential_dispersion", h=lambda s, b: s.exponential(2.0, name="h"), fam="nb")
lr("lognormal_dispersion", h=lambda s, b: s.lognormal(0.5, 0.5, name="h"), fam="nb")
lr("invgamma_dispersion", h=lambda s, b: s.invgamma(4.0, 2.0, name="h"), fam="nb")
lr("vector_dispersion", h=lambda s, b: np.array([1.0, 2.0, 3.0, 4.0, 5.0]), fam="nb")
lr("dispersion_of_coefficients", h=lambda s, b: at.exp(b[0]), fam="nb")
lr("dispersion_given_coefficients", h=lambda s, b: s.gamma(at.exp(b[0]), 2.0, name="h"), fam="nb")


def _shared_dispersion(s):
    X = at.matrix("X")
    h = s.gamma(4.0, 2.0, name="h")
    b1, b2 = s.normal(0, 1, size=2, name="b1"), s.normal(0, 2, size=2, name="b2")
    y, z = s.nbinom(h, at.sigmoid(-X.dot(b1)), name="y"), s.nbinom(h, at.sigmoid(-X.dot(b2)), name="z")
    return [y, z], {X: _X(5, 2)}


def _dispersion_and_normal(s):
    X = at.matrix("X")
    h = s.gamma(4.0, 2.0, name="h")
    b1 = s.normal(0, 1, size=2, name="b1")
    y, z = s.nbinom(h, at.sigmoid(-X.dot(b1)), name="y"), s.normal(h, 1.0, name="z")
    return [y, z], {X: _X(5, 2)}


def _dispersion_in_scale(s):
    X = at.matrix("X")
    h = s.gamma(4.0, 2.0, name="h")
    b1 = s.normal(0, h, size=2, name="b1")
    return [s.nbinom(h, at.sigmoid(-X.dot(b1)), name="y")], {X: _X(5, 2)}


def _dispersion_in_probability(s):
    X = at.matrix("X")
    h = s.gamma(4.0, 2.0, name="h")
    b1 = s.normal(0, 1, size=2, name="b1")
    return [s.nbinom(h, at.sigmoid(-(h * X).dot(b1)), name="y")], {X: _X(5, 2)}


def _matrix_counts(s):
    X = at.matrix("X")
    b1 = s.normal(0, 1, size=2, name="b1")
    return [s.bernoulli(at.sigmoid(-X.dot(b1)), size=(3, 5), name="y")], {X: _X(5, 2)}


def _matrix_counts_nb(s):
    X = at.matrix("X")
    b1 = s.normal(0, 1, size=2, name="b1")
    return [s.nbinom(s.gamma(2.0, 1.0, name="h"), at.sigmoid(-X.dot(b1)), size=(3, 5), name="y")], {X: _X(5, 2)}


def _two_full(s):
    X = at.matrix("X")
    o = []
    for k in "12":
        b = s.normal(0, 1, size=2, name="b" + k)
        o.append(s.nbinom(s.gamma(4.0, 2.0, name="h" + k), at.sigmoid(-X.dot(b)), name="y" + k))
    return o, {X: _X(5, 2)}


def _sum_of_predictors(s):
    X = at.matrix("X")
    b1, b2 = s.normal(0, 1, size=2, name="b1"), s.normal(0, 2, size=2, name="b2")
    return [s.bernoulli(at.sigmoid(-(X.dot(b1) + X.dot(b2))), name="y")], {X: _X(5, 2)}


def _sum_of_coefficients(s):
    X = at.matrix("X")
    b1, b2 = s.normal(0, 1, size=2, name="b1"), s.normal(0, 2, size=2, name="b2")
    return [s.bernoulli(at.sigmoid(-X.dot(b1 + b2)), name="y")], {X: _X(5, 2)}


def _vector_matrix(s):
    x = at.vector("x")
    b = s.normal(0, 1, size=3, name="b")
    return [s.bernoulli(at.sigmoid(-x.dot(b)), name="y")], {x: np.array([0.5, -1.0, 0.3])}


def _coefficients_on_the_left(s):
    X = at.matrix("X")
    b = s.normal(0, 1, size=2, name="b")
    return [s.bernoulli(at.sigmoid(-b.dot(X.T)), name="y")], {X: _X(5, 2)}


def _square_matrix_left(s):
    X = at.matrix("X")
    b = s.normal(0, 1, size=3, name="b")
    return [s.bernoulli(at.sigmoid(-b.dot(X)), name="y")], {X: _X(3, 3)}


for _f, _must in ((_shared_dispersion, ("b1", "b2")), (_dispersion_and_normal, ("b1",)), (_dispersion_in_scale, ("b1",)), (_dispersion_in_probability, ("b1",)),
                  (_matrix_counts, ()), (_matrix_counts_nb, ()), (_two_full, ("b1", "b2", "h1", "h2")), (_sum_of_predictors, ()), (_sum_of_coefficients, ()),
                  (_vector_matrix, ()), (_coefficients_on_the_left, ()), (_square_matrix_left, ())):
    simple("regression", "lr" + _f.__name__, _f, _must)
