"""Access to the sampler the real code builds: one step, its inputs and its graph."""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

from . import graph as g
from .guard import limit


def build(obs, srng=None, seed=0):
    from aemcmc.basic import construct_sampler

    with limit(180, "construct_sampler"):
        return construct_sampler(obs, srng or RandomStream(seed))


def step_graph(sampler, init, rv, cut=None):
    """The step of `rv` with every other latent variable cut to a fresh placeholder.

    `cut` maps latent variables to the placeholders that stand for their current value.
    """
    cut = cut or {}
    subst = {}
    for v, ph in cut.items():
        if v is rv:
            continue
        subst[sampler.sample_steps[v]] = ph
        subst[init[v]] = ph
    if rv in cut:
        subst[init[rv]] = cut[rv]
    (o,) = g.flatten([sampler.sample_steps[rv]], subst)
    return o


def kernel_name(sampler, rv):
    o = sampler.sample_steps[rv].owner
    return type(o.op).__name__ if o is not None else None
