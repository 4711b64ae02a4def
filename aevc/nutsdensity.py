"""The log-density of the gradient-based step, as a function of the unconstrained position.

For each kernel call: the graph passed to the kernel is denoted with one name per part of the
position (AeHMC's `RaveledParamsMap` is external: its parts are disjoint), and compared with

    sum_v log p(v | parents) at the values the step returns for the position
    + sum log |d value / d position|

where the densities are the contracts in `laws` applied to the *user's* parameters, and the
step's own results are first shown to be one of the maps whose Jacobian is known.
"""
from fractions import Fraction

import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import io_toposort
from aesara.tensor.subtensor import Subtensor

from . import graph as g
from . import laws, terms as t
from . import sampler as S
from .denote import Denoter, T, _sum, leaf
from .terms import Unsupported, ix

KINDS = {"normal", "gamma", "beta", "invgamma", "exponential", "halfnormal", "halfcauchy", "cauchy", "laplace", "logistic", "gumbel",
         "lognormal", "uniform", "poisson", "bernoulli", "binomial", "nbinom"}
DISCRETE = {"poisson", "bernoulli", "binomial", "nbinom", "categorical"}


UNIT = set()  # names of numbers between 0 and 1


def positive(e):
    """Is the expression positive wherever it is defined?"""
    if e.is_zero():
        return False
    c, mono, rest = t.content(e, False)
    if c > 0 and all(t.atom_positive(a) for a, _ in mono) and len(rest.terms) == 2 and rest.terms.get(t.ONE_M) == 1:
        (m,) = [m for m in rest.terms if m != t.ONE_M]
        if rest.terms[m] == -1 and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1 and m[0][0][0][0] == "s" and m[0][0][0][1] in UNIT:
            return True
    num, den = t.together(e)
    return t.expr_positive(num) and t.expr_positive(den) or t.expr_positive(e)


class Density(Denoter):
    """Denotation on the support: the conditions about values of the support are decided."""

    def __init__(self, leaves, binary, observed):
        super().__init__(leaves, facts=self.fact)
        self.binary, self.observed = binary, observed

    def fact(self, c):
        if len(c.terms) != 1:
            return None
        ((m, co),) = c.terms.items()
        if co != 1 or m[1] or len(m[0]) != 1 or m[0][0][1] != 1 or m[0][0][0][0] != "f":
            return None
        _, op, a = m[0][0][0]
        if op not in ("lt", "le", "gt", "ge", "eq", "neq"):
            return None
        d = a[0] - a[1]
        if op in ("eq", "neq"):
            if d.is_zero():
                return op == "eq"
            if positive(d) or positive(-d):
                return op == "neq"
            return None
        if op in ("lt", "le"):
            d = -d
        if d.is_zero():
            return op in ("le", "ge")
        if positive(d):
            return True
        if positive(-d):
            return False
        k = d.const()
        if k is not None:
            return k > 0 or (k == 0 and op in ("le", "ge"))
        # the observed values lie in the support; no count is astronomically large
        if op in ("le", "ge") and symbols(d) & self.observed:
            return True
        if op == "gt" and any(x.const() is not None and x.const() >= 10**9 for x in (a[1],)):
            return False
        return None

    def careduce(self, node, op, x):
        """A sum over a vector of given scalars is written out."""
        if type(op.scalar_op).__name__ == "Add" and x.ndim == 1 and isinstance(x.dims[0], int) and x.dims[0] <= 64 and op.axis in (None, (0,)):
            def el():
                r = t.lift(0)
                for k in range(x.dims[0]):
                    r = r + x(ix(None, k))
                return r

            if type(node.inputs[0].owner.op).__name__ in ("MakeVector", "Join") if node.inputs[0].owner is not None else False:
                return T([], el)
        return super().careduce(node, op, x)

    def scalar(self, sop, a, node=None):
        n = type(sop).__name__
        if n == "Switch":
            c = self.truth(a[0])
            if c is None:
                e = a[0]
                if symbols(e) and symbols(e) <= self.binary and len(e.terms) == 1:
                    return e * a[1] + (1 - e) * a[2]
                v = at_equality(e, a[2])
                if v is not None and v == a[1]:
                    return a[2]  # the branches agree where the condition holds
                if a[0].const() is None and is_inf(a[1]):
                    # `0 log 0` conventions
                    raise Unsupported("a support condition: " + t.show(e)[:200])
        return super().scalar(sop, a, node)


def at_equality(c, e):
    """`e` where the condition `atom == constant` holds."""
    if len(c.terms) != 1:
        return None
    ((m, co),) = c.terms.items()
    if co != 1 or m[1] or len(m[0]) != 1 or m[0][0][1] != 1 or m[0][0][0][0] != "f" or m[0][0][0][1] != "eq":
        return None
    x, y = m[0][0][0][2]
    b = y.const()
    if b is None or len(x.terms) != 1:
        return None
    ((m, co),) = x.terms.items()
    if co != 1 or m[1] or len(m[0]) != 1 or m[0][0][1] != 1:
        return None
    at = m[0][0][0]
    r = t.lift(0)
    for m, co in e.terms.items():
        k = dict(m[0]).get(at)
        if k is None:
            r = r + t.Expr({m: co})
        elif k.denominator != 1 or k < 0:
            return None
        else:
            r = r + t.mk_mono([(a, n) for a, n in m[0] if a != at], m[1]) * co * b**int(k)
    return r


def is_inf(e):
    return "INF" in symbols(e)


def symbols(e):
    res = set()

    def expr(x):
        for m in x.terms:
            for a, _ in m[0]:
                atom(a)

    def atom(a):
        if a[0] == "s":
            res.add(a[1])
        elif a[0] == "f":
            for x in a[2]:
                expr(x)
        elif a[0] == "p":
            expr(a[1])
        elif a[0] in ("inv", "chol", "cli"):
            expr(a[1][0])

    expr(e)
    return res


def supported(case):
    for rv in case.m.rvs:
        if rv.owner.op.name not in KINDS:
            return f"no symbolic density for {rv.owner.op.name}"
    return None


def parts(outs, q):
    """The pieces of the position: what the slices of `q` are reshaped to."""
    res = []
    for n in io_toposort([], outs):
        if q in n.inputs:
            if not isinstance(n.op, Subtensor) or n.inputs[0] is not q:
                if not any(q is v for v in outs):
                    raise Unsupported(f"the position is used by {n.op}")
                continue
            cl = [k for k in io_toposort([], outs) if n.outputs[0] in k.inputs]
            if any(type(k.op).__name__ != "Reshape" for k in cl):
                raise Unsupported("a slice of the position is not reshaped")
            res += [(n, k) for k in cl]
    return res


def expected(case, call):
    m, b = case.m, case.b
    t.reset_positive()
    UNIT.clear()
    gr = case.group(call)
    outs, ph = case.v.cut(gr, [case.v.step[rv] for rv in gr] + [call["logp"]])
    (node,) = [n for n in io_toposort([], outs) if isinstance(n.op, S._Opaque)]
    outs = g.cons(g.cut(outs, {node.outputs[0]: call["q_probe"]}))
    vals = m.prior_values(3)
    shape = lambda v: [int(s) for s in np.shape(v)]  # noqa: E731
    leaves, binary, observed = {}, set(), set()
    value = {}  # rv -> T of its newest value (not for the group)

    def bind(var, name, v, kind=None):
        leaves[var] = leaf(name, shape(v))
        if kind in ("gamma", "invgamma", "exponential", "halfnormal", "halfcauchy", "lognormal", "beta"):
            t.declare_positive(name)
        if kind == "beta":
            UNIT.add(name)
        return leaves[var]

    for k, (v, d) in enumerate(m.data.items()):
        bind(v, f"data{k}", d)
        if np.all(np.asarray(d) > 0):
            t.declare_positive(f"data{k}")
    for k, rv in enumerate(m.rvs):
        if rv in m.obs:
            o = m.obs[rv]
            nm = f"obs{k}"
            value[rv] = bind(o, nm, vals[rv], rv.owner.op.name)
            observed.add(nm)
            if rv.owner.op.name == "bernoulli":
                binary.add(nm)
    for k, v in enumerate(g.leaves(outs + [p for rv in m.rvs for p in rv.owner.inputs])):
        if isinstance(v, SharedVariable) and v not in leaves and hasattr(v.type, "ndim"):
            bind(v, f"shared{k}", v.get_value())
            if np.all(np.asarray(v.get_value()) > 0):
                t.declare_positive(f"shared{k}")
    for k, (rv, v) in enumerate(b.init.items()):
        # values from before this step: the log-density of the newest values does not read them
        bind(v, f"old{k}", vals[rv])
    for k, (rv, p) in enumerate(ph.items()):
        value[rv] = bind(p, f"val{k}", vals[rv], rv.owner.op.name)
    D = Density(leaves, binary, observed)
    seen, us = {}, []
    for sl, rs in parts(outs, call["q_probe"]):
        key = sl.outputs[0]
        if key in seen:
            raise Unsupported("a slice of the position is used twice")
        u = seen[key] = f"u{len(seen)}"
        dims = rs.outputs[0].type.ndim
        shp = D.tensor(rs.inputs[1])
        ds = [shp(k).const() for k in range(dims)]
        if any(d is None for d in ds):
            raise Unsupported("the shape of a part of the position")
        D.memo[rs.outputs[0]] = leaf(u, [int(d) for d in ds])
        us.append(u)
    # parameters of the group's variables, in dependency order
    todo, jac = list(gr), t.lift(0)
    params = {}
    for rv in m.rvs:
        V = Density(dict(leaves), binary, observed)
        V.memo.update(value)
        params[rv] = [V.tensor(p) for p in rv.owner.inputs[3:]]
        if rv in todo:
            x = D.tensor(outs[gr.index(rv)])
            value[rv] = x
            jac = jac + jacobian(rv, x, params[rv], us, V)
    got = D.tensor(outs[-1])
    if got.ndim:
        raise Unsupported("the log-density is not a scalar")
    want = jac
    for rv in m.rvs:
        x = value[rv]
        V = Density({}, binary, observed)
        names = [t.fresh_ix() for _ in x.dims]
        idx = [ix(s) for s in names]
        e = laws.logp(rv.owner.op.name, [V.broadcast(p, x.dims)(*idx) for p in params[rv]], x(*idx), binomln)
        for s, d in zip(names, x.dims):
            e = _sum(e, s, d)
        want = want + e
    return got(), want, us


def binomln(n, k):
    return laws.lg(n + 1) - laws.lg(k + 1) - laws.lg(n - k + 1)


def jacobian(rv, x, params, us, V):
    """log |dx/du|, if x is a map whose derivative is known."""
    names = [t.fresh_ix() for _ in x.dims]
    idx = [ix(s) for s in names]
    e = x(*idx)
    mine = [u for u in us if u in symbols(e)]
    sig = lambda u: t.exp(u) * t.power(t.exp(u) + 1, -1)  # noqa: E731
    for name in mine:
        u = t.sym(name, *idx)
        if e == u:
            j = t.lift(0)
        elif e == t.exp(u):
            j = u
        elif e == sig(u):
            j = u - 2 * t.log(t.exp(u) + 1)
        elif rv.owner.op.name == "uniform":
            lo, hi = (V.broadcast(p, x.dims)(*idx) for p in params)
            if t.expr_positive(hi - lo) is False:
                t.declare_positive_expr(hi - lo)
            if not (e - lo - (hi - lo) * sig(u)).is_zero() and not t.together(e - lo - (hi - lo) * sig(u))[0].is_zero():
                continue
            j = t.log(hi - lo) + u - 2 * t.log(t.exp(u) + 1)
        else:
            continue
        for s, d in zip(names, x.dims):
            j = _sum(j, s, d)
        return j
    raise Unsupported(f"the map from the position to {case_label(rv)} is not a known one: {t.show(e)[:200]}")


def case_label(rv):
    return rv.name or rv.owner.op.name


def factored_logs(e):
    """log of a product of positive polynomials as the sum of the logs of its irreducible factors."""
    r = t.lift(0)
    for (factors, bounds), c in e.terms.items():
        for k, (a, x) in enumerate(factors):
            fs = factors_of(a[2][0]) if x == 1 and a[0] == "f" and a[1] == "log" else None
            if fs:
                others = list(factors[:k]) + list(factors[k + 1:])
                for f, n in fs:
                    la = t.log(f)
                    for (fm, fb), co in la.terms.items():
                        if fb:
                            raise Unsupported("log of a sum")
                        r = r + t.mk_mono(others + list(fm), bounds) * co * c * n
                break
        else:
            r = r + t.Expr({(factors, bounds): c})
    return r


def factors_of(e):
    import sympy

    if not 2 < len(e.terms) <= 40 or not t.expr_positive(e) or any(m[1] for m in e.terms):
        return None
    atoms = {a for m in e.terms for a, _ in m[0]}
    if len(atoms) > 4:
        return None
    den = {a: 1 for a in atoms}
    for m in e.terms:
        for a, x in m[0]:
            den[a] = int(np.lcm(den[a], x.denominator))
    names = {a: sympy.Symbol(f"x{k}", positive=True) for k, a in enumerate(sorted(atoms, key=str))}
    p = sum(sympy.Rational(c.numerator, c.denominator) * sympy.prod([names[a] ** int(x * den[a]) for a, x in m[0]]) for m, c in e.terms.items())
    c0, fs = sympy.factor_list(p)
    if c0 <= 0 or len(fs) == 1 and fs[0][1] == 1:
        return None
    back = {v: t.power(t.Expr({(((a, t.F1),), ()): t.F1}), Fraction(1, den[a])) for a, v in names.items()}
    res = [(t.lift(Fraction(int(c0.p), int(c0.q))), 1)] if c0 != 1 else []
    for f, n in fs:
        x = t.lift(0)
        for exps, co in sympy.Poly(f, *names.values()).terms():
            mono = t.lift(Fraction(int(co.p), int(co.q)))
            for v, k in zip(names.values(), exps):
                mono = mono * t.power(back[v], k) if k else mono
            x = x + mono
        if not t.expr_positive(x):
            return None
        res.append((x, int(n)))
    return res


def shown(case, call):
    got, want, us = expected(case, call)
    if not us:
        raise Unsupported("no position")
    rest = laws.depends_on(got - want, set(us))
    if not rest.is_zero():
        rest = laws.depends_on(factored_logs(rest), set(us))
    if not rest.is_zero():
        raise Unsupported(f"not shown: {t.show(rest)[:300]}")
    return "normal-form"


def density_obligations(check, case, name, F, strict=True):
    """True if the joint density is shown.  Without `strict`, what is out of reach is not an obligation."""
    why = supported(case)
    ok = not why
    for k, call in enumerate(case.calls):
        label = f"{name}: the kernel's log-density is the joint density of the newest values with the transforms' volume terms" + (f" (call {k})" if len(case.calls) > 1 else "")
        if why:
            check.skip(label, F, why)
            continue
        if not strict:
            try:
                shown(case, call)
            except Exception:
                ok = False
                continue
        ok &= check.ob(label, F, lambda call=call: shown(case, call)) == "discharged"
    return ok
