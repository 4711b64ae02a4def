"""Contract of a sequence of draws that is a Gibbs pass over an extended target.

A `Role` is a variable of the extended target: its own log-conditional given the state
(`cond(state, idx, x)`, an expression), its dimensions and, if it is part of the state
before the step, its current value.  The contract: the draws can be assigned to roles so
that every draw has, at its turn, exactly the conditional of its role given the newest
values.  Every such pass leaves the extended target (hence its marginal) invariant.
"""
import numpy as np

from . import laws, terms as t
from .core import Refuted, SEED
from .denote import dim_expr
from .subject import gen_draw, magnify
from .terms import Unsupported


class Role:
    def __init__(self, name, dims, cond, cur=None):
        self.name, self.dims, self.cond, self.cur = name, dims, cond, cur


def _idx(dims):
    return [t.ix(None, 0) if d == 1 else f"i{k}" for k, d in enumerate(dims)]


def _at(idx, pos):
    return {i: q for i, q in zip(idx, pos) if isinstance(i, str)}


def _value(d, inv):
    def f(*i):
        s = t.sym(d.name, *i)
        return t.power(s, -1) if inv else s

    return f


def _law(d, inv, idx, x):
    """log-density at `x` of the draw (or of its reciprocal)."""
    ps = [p(*idx) for p in d.params]
    if not inv:
        return laws.logp(d.kind, ps, x)
    return laws.logp(d.kind, ps, t.power(x, -1)) - 2 * t.log(x)


def _search(draws, roles, accept):
    """Depth-first assignment; yields (assignment, state)."""
    def go(k, state, used, asg):
        if k == len(draws):
            return asg, state
        for r in roles:
            if r.name in used:
                continue
            for inv in (False, True):
                if accept(draws[k], inv, r, state):
                    s2 = dict(state)
                    s2[r.name] = _value(draws[k], inv)
                    res = go(k + 1, s2, used | {r.name}, asg + [(r.name, inv)])
                    if res:
                        return res
        return None

    init = {r.name: r.cur for r in roles if r.cur is not None}
    return go(0, init, frozenset(), [])


def symbolic(D, roles):
    if len(D.draws) != len(roles):
        raise Unsupported(f"{len(D.draws)} draws for {len(roles)} variables of the extended target")

    def accept(d, inv, r, state):
        if [dim_expr(q) for q in d.dims] != [dim_expr(q) for q in r.dims]:
            return False
        idx = _idx(r.dims)
        x = t.sym("x")
        t.declare_positive("x")
        try:
            diff = _law(d, inv, idx, x) - r.cond(state, idx, x)
        except KeyError:
            return False
        return laws.depends_on(diff, {"x"}).is_zero()

    res = _search(D.draws, roles, accept)
    if res is None:
        raise Unsupported("the draws are not a pass over the conditionals of the extended target")
    return res


def _centre(kind, ps, inv):
    """Where the law varies: its scale, roughly."""
    s = {"gamma": lambda a, b: a * b, "exponential": lambda b: b, "invgamma": lambda a, b: b / a}.get(kind)
    c = s(*ps) if s else 1.0
    return 1 / c if inv else c


def concrete(D, subj, roles, dims, seed, outputs, wild=0):
    """The same matching with the real graph's numbers at a random point; with `wild`, one whose values spread
    over that many orders of magnitude."""
    rng = np.random.default_rng([SEED, seed])
    env = subj.inputs(rng, dims, wild)
    forced = [gen_draw(n.op.name, rng, s) for n, s in zip(subj.nodes, subj.draw_shapes(env))]
    if wild:
        forced = [magnify("pos", f, rng, wild) for f in forced]
    outs, params, _ = subj.run(env, forced)
    byn = {d.node: d for d in D.draws}
    nenv = dict(env)
    for n, f in zip(subj.nodes, forced):
        nenv[byn[n].name] = f
    shp = lambda ds: tuple(dims[q] if isinstance(q, str) else q for q in ds)  # noqa: E731

    def accept(d, inv, r, state):
        f = nenv[d.name]
        if np.shape(f) != shp(r.dims):
            return False
        ps = [np.broadcast_to(q, np.shape(f)) for q in params[d.node]]
        for pos in np.ndindex(*np.shape(f)):
            v, size = [], 1.0
            mid = _centre(d.kind, [float(q[pos]) for q in ps], inv) if wild else 1.0
            for xv in (0.3 * mid, 1.1 * mid, 2.7 * mid):
                x = t.sym("x")
                cps = [t.sym(f"cp{k}") for k in range(len(ps))]
                law = laws.logp(d.kind, cps, x if not inv else t.power(x, -1)) - (2 * t.log(x) if inv else 0)
                e2 = dict(nenv)
                e2["x"] = xv
                for k, q in enumerate(ps):
                    e2[f"cp{k}"] = float(q[pos])
                idx = _idx(r.dims)
                try:
                    c = r.cond(state, idx, x)
                except KeyError:
                    return False
                a, b = t.neval(law, e2, dims, _at(idx, pos)), t.neval(c, e2, dims, _at(idx, pos))
                v.append(a - b)
                size = max(size, abs(a), abs(b)) if wild else max(size, abs(a - b))
            if np.ptp(v) > (1e-4 if wild else 1e-6) * (1 + size):
                return False
        return True

    res = _search([byn[n] for n in subj.nodes], roles, accept)
    wit = {"inputs": env, "draws": [(n.op.name, [np.asarray(p).tolist() for p in params[n]]) for n in subj.nodes]}
    if res is None:
        return None, wit
    asg, state = res
    for o, f in zip(outs, outputs):
        f(o, state, nenv, wit)
    return asg, wit
