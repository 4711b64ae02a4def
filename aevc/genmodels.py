"""Seeded random models of continuous latent variables."""
import functools
import random

import aesara.tensor as at
import numpy as np
from aeppl import joint_logprob
from aeppl.transforms import TransformValuesRewrite, _default_transformed_rv
from aesara.tensor.random import RandomStream

from .models import Model


@functools.lru_cache(maxsize=None)
def supported(seed, maxlat):
    """Whether AePPL on its own has a joint density for the model (its canonicalisation loses
    variables of models in which e.g. `(v - 1) + 1` is a parameter)."""
    m = _generate(seed, maxlat)
    if not m.latents:
        return False
    try:
        transforms = {}
        for rv in m.latents:
            t = _default_transformed_rv(rv.owner.op, rv.owner)
            transforms[rv] = t.op.transform if t else None
        joint_logprob(*m.latents, realized=m.obs, extra_rewrites=TransformValuesRewrite(transforms))
    except Exception:
        return False
    return True


def generate(seed, maxlat=5):
    """A random model AePPL supports."""
    while not supported(seed, maxlat):
        seed += 7919
    return _generate(seed, maxlat)


def _generate(seed, maxlat):
    """A random directed graph of latent variables of several families and shapes."""
    R = random.Random(seed)
    s = RandomStream(seed)
    n = R.randint(2, 4)
    pool = []  # (variable, support, length or None)

    def real(size):
        """A real-valued expression of the given length (None: scalar)."""
        c = [v for v in pool if v[2] in (None, size)]
        if not c or R.random() < 0.25:
            return at.as_tensor(R.choice([-1.0, 0.0, 0.5, 1.25]))
        v, sup, _ = R.choice(c)
        return R.choice([v, 0.5 * v, v - 1.0])

    def pos(size):
        c = [v for v in pool if v[2] in (None, size) and v[1] in ("pos", "unit")]
        if not c or R.random() < 0.35:
            return at.as_tensor(R.choice([0.5, 1.0, 2.0]))
        v, sup, _ = R.choice(c)
        return R.choice([v, v + 0.5, 0.5 + at.sqrt(v)])

    for i in range(R.randint(1, maxlat)):
        size = R.choice([None, None, n])
        kw = {"name": f"v{i}"}
        if size is not None:
            kw["size"] = size
        fam = R.choice(["normal", "gamma", "beta", "exponential", "halfnormal", "halfcauchy", "invgamma", "laplace", "logistic", "uniform", "lognormal", "cauchy", "gumbel"])
        if fam in ("normal", "laplace", "logistic", "gumbel", "cauchy"):
            v, sup = getattr(s, fam)(real(size), pos(size), **kw), "real"
        elif fam in ("gamma", "invgamma"):
            v, sup = getattr(s, fam)(1.0 + pos(size), pos(size), **kw), "pos"
        elif fam == "beta":
            v, sup = s.beta(0.5 + pos(size), 0.5 + pos(size), **kw), "unit"
        elif fam == "exponential":
            v, sup = s.exponential(pos(size), **kw), "pos"
        elif fam in ("halfnormal", "halfcauchy"):
            v, sup = getattr(s, fam)(0.0, R.choice([at.as_tensor(1.0), pos(size)]), **kw), "pos"
        elif fam == "lognormal":
            v, sup = s.lognormal(0.3 * at.tanh(real(size)), 0.5, **kw), "pos"
        else:
            lo = real(size)
            v, sup = s.uniform(lo, lo + pos(size), **kw), "real"
        pool.append((v, sup, size))
    obs = []
    for j in range(R.randint(1, 2)):
        size = R.choice([None, n])
        fam = R.choice(["normal", "normal", "poisson", "bernoulli", "gamma", "nbinom", "binomial"])
        kw = {"name": f"y{j}"}
        if size is not None:
            kw["size"] = size
        if fam == "normal":
            y = s.normal(real(size), pos(size), **kw)
        elif fam == "poisson":
            y = s.poisson(pos(size), **kw)
        elif fam == "bernoulli":
            y = s.bernoulli(at.sigmoid(real(size)), **kw)
        elif fam == "gamma":
            y = s.gamma(1.0 + pos(size), pos(size), **kw)
        elif fam == "nbinom":
            y = s.nbinom(1.0 + pos(size), at.sigmoid(real(size)), **kw)
        else:
            y = s.binomial(at.as_tensor(np.int64(5)), at.sigmoid(real(size)), **kw)
        obs.append(y)
    return Model(f"generated_{seed}", s, obs)
