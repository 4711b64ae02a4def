"""A piece of the real code under contract: its graph, its denotation and its concrete run."""
import itertools

import aesara
import numpy as np
from aesara.graph.basic import clone_replace
from aesara.ifelse import IfElse
from aesara.graph.basic import applys_between, io_toposort

from . import graph as g, smt, terms as t
from .core import Refuted, SEED
from .denote import Denoter, T, dim_expr, leaf
from .terms import Unsupported

NORMALS = {"normal", "standard_normal"}


class Leaf:
    def __init__(self, var, name, dims, gen="normal"):
        self.var, self.name, self.dims, self.gen = var, name, list(dims), gen


def generate(gen, rng, shape):
    if callable(gen):
        return gen(rng, shape)
    if gen == "normal":
        return rng.normal(size=shape)
    if gen == "pos":
        return rng.gamma(2.0, 0.7, size=shape) + 0.05
    if gen == "unit":
        return rng.uniform(0.05, 0.95, size=shape)
    if gen == "count":
        return rng.poisson(3.0, size=shape)
    if gen == "binary":
        return rng.integers(0, 2, size=shape)
    raise ValueError(gen)


def magnify(gen, v, rng, wild):
    each = rng.random() < 0.3
    f = 10.0 ** rng.uniform(-wild / 2 if each else -wild, wild / 2 if each else wild, size=np.shape(v) if each else None)
    if gen in ("normal", "pos"):
        return v * f
    if gen == "unit":
        return np.where(rng.random(np.shape(v)) < 0.5, v * np.minimum(f, 1 / f), 1 - (1 - v) * np.minimum(f, 1 / f))
    if gen == "count":
        return np.floor(v * np.clip(f, 0.1, 300))
    return v


def gen_draw(kind, rng, shape):
    if kind in NORMALS:
        return rng.normal(size=shape)
    if kind in ("beta", "uniform"):
        return rng.uniform(0.05, 0.95, size=shape)
    if kind in ("poisson", "binomial", "nbinom"):
        return rng.poisson(3.0, size=shape)
    if kind == "bernoulli":
        return rng.integers(0, 2, size=shape)
    return rng.gamma(2.0, 0.7, size=shape) + 0.05


class Subject:
    def __init__(self, name, outputs, leaves, positive=()):
        self.name = name
        self.leaves = leaves
        self.flat = g.flatten(outputs)
        self.nodes = [n for n in g.draws(self.flat, [l.var for l in leaves])]
        self.positive = [l.name for l in leaves if l.gen == "pos"] + list(positive)
        self.floors = {}  # pre-conditions on the values of leaves
        self._fn = None
        lv = {l.var for l in leaves}
        self.ifelse = [n for n in io_toposort(list(lv), self.flat) if isinstance(n.op, IfElse)]

    # -------------------------------------------------------- denotation
    def denote(self, branch=None, standardise=False, facts=None, extra=()):
        t.declare_positive(*self.positive)
        L = {l.var: leaf(l.name, l.dims) for l in self.leaves}
        br = dict(zip(self.ifelse, branch or [None] * len(self.ifelse)))
        D = Denoter(L, br, facts=facts)
        D.standardise = standardise
        outs = [D.tensor(o) for o in self.flat]
        ex = [D.tensor(o) for o in extra]
        return D, outs, ex

    def branches(self):
        return list(itertools.product((0, 1), repeat=len(self.ifelse)))

    # -------------------------------------------------------- concrete run
    def _compile(self):
        if self._fn is None:
            force = [n.outputs[1].type() for n in self.nodes]
            params = [p for n in self.nodes for p in n.inputs[3:]]
            conds = [n.inputs[0] for n in self.ifelse]
            allv = list(self.flat) + params + conds
            rep = {n.outputs[1]: f for n, f in zip(self.nodes, force)}
            new = clone_replace(allv, rep) if rep else allv
            self._real_draws = None
            self._fn = aesara.function([l.var for l in self.leaves] + force, new, on_unused_input="ignore")
            self._shape_fn = aesara.function(
                [l.var for l in self.leaves], [n.outputs[1].shape for n in self.nodes], on_unused_input="ignore"
            ) if self.nodes else None
        return self._fn

    def inputs(self, rng, dims, wild=0):
        """Values of the leaves; with `wild` they spread over that many orders of magnitude each way."""
        res = {}
        for l in self.leaves:
            v = generate(l.gen, rng, tuple(_dim(d, dims) for d in l.dims))
            if wild:
                v = np.maximum(magnify(l.gen, v, rng, wild), self.floors.get(l.name, -np.inf))
            res[l.name] = np.asarray(v, dtype=l.var.type.dtype)
        return res

    def draw_shapes(self, env):
        self._compile()
        if self._shape_fn is None:
            return []
        return [tuple(int(x) for x in s) for s in self._shape_fn(*[env[l.name] for l in self.leaves])]

    def run(self, env, forced):
        """Returns (outputs, {node: params}, [branch conditions])."""
        fn = self._compile()
        r = fn(*[env[l.name] for l in self.leaves], *[np.asarray(f, dtype=n.outputs[1].type.dtype) for n, f in zip(self.nodes, forced)])
        k = len(self.flat)
        outs, r = r[:k], r[k:]
        params = {}
        for n in self.nodes:
            m = len(n.inputs[3:])
            params[n], r = r[:m], r[m:]
        return outs, params, r

    def drawer(self, seed=0):
        """A compiled function of the leaves drawing from the real graph; every call uses new randomness."""
        from aesara.compile.sharedvalue import SharedVariable

        ups = {}
        for k, n in enumerate(self.nodes):
            r = n.inputs[0]
            if isinstance(r, SharedVariable):
                ups[r] = n.outputs[0]
                r.set_value(np.random.default_rng([SEED, seed, k]))
        return aesara.function([l.var for l in self.leaves], list(self.flat), updates=ups, on_unused_input="ignore")

    # -------------------------------------------------------- engine self-check
    def selfcheck(self, dims, seed=0, tol=1e-7):
        """The denotation agrees with the real graph at a random point.  Returns the env."""
        rng = np.random.default_rng(SEED * 7919 + seed)
        env = self.inputs(rng, dims)
        forced = [gen_draw(n.op.name, rng, s) for n, s in zip(self.nodes, self.draw_shapes(env))]
        outs, params, conds = self.run(env, forced)
        branch = tuple(0 if c else 1 for c in conds)
        D, den, _ = self.denote(branch)
        nenv = dict(env)
        byn = dict(zip(self.nodes, forced))
        for d in D.draws:
            nenv[d.name] = byn[d.node]
        cache = {}
        n = 0
        for T_, real in zip(den, outs):
            n += compare(T_, real, nenv, dims, cache, tol, self.name)
        for d in D.draws:
            for T_, real in zip(d.params, params[d.node]):
                b = np.broadcast_to(real, byn[d.node].shape)
                n += compare(T_, b, nenv, dims, cache, tol, f"{self.name}:{d}")
        return n


def _dim(d, dims):
    if isinstance(d, int):
        return d
    if isinstance(d, str):
        return int(dims[d])
    return sum(c * int(dims[s]) for s, c in d[1]) + d[2]


def compare(T_, real, env, dims, cache, tol, what):
    real = np.asarray(real)
    shape = tuple(_dim(d, dims) for d in T_.dims)
    if shape != real.shape:
        raise Unsupported(f"denotation self-check failed for {what}: shape {shape} vs {real.shape}")
    names = [f"%c{k}" for k in range(len(shape))]
    e = T_(*names)
    n = 0
    for idx in itertools.product(*[range(s) for s in shape]):
        v = t.neval(e, env, dims, dict(zip(names, idx)), cache)
        if not np.isclose(v, real[idx], rtol=tol * 100, atol=tol, equal_nan=True):
            raise Unsupported(f"denotation self-check failed for {what}: {v} vs {real[idx]} at {idx}")
        n += 1
    return n


def identity(lhs, rhs, point=None, what=""):
    """Obligation lhs == rhs (expressions).  `point()` gives (env, dims, idx) for a counterexample search."""
    b = smt.equal(lhs, rhs)
    if b:
        return b
    if point is not None:
        for k in range(6):
            env, dims, idx = point(k)
            try:
                x, y = t.neval(lhs, env, dims, idx), t.neval(rhs, env, dims, idx)
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            if not np.isclose(x, y, rtol=1e-6, atol=1e-9):
                raise Refuted(
                    f"{what}: {x!r} instead of {y!r}; normal form of the difference: {t.show(lhs - rhs)[:600]}",
                    witness={"point": {k: v for k, v in env.items()}, "dims": dims, "indices": idx, "left": x, "right": y},
                    replayed=True,
                )
    raise Unsupported(f"{what}: identity not established: {t.show(lhs - rhs)[:300]}")
