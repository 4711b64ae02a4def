"""The hypotheses of the specialised steps: when is a step's target the full conditional?

Two independent deciders, both about the *user's* model:

* `symbolic(m, b)`: the hypotheses of every specialised step the real code chose, established on
  the denotation of the user's model (for every value, and every size the model leaves open);
* `numeric(m, b, ...)`: the law the chosen step really has (parameters read off the real graph with
  forced draws) against the joint density of the user's model (SciPy), at random points.
"""
import aesara
import numpy as np
from aesara.tensor.random.op import RandomVariable

from . import graph as g
from . import laws
from . import oracle as O
from . import terms as t
from .core import Refuted
from .denote import Denoter, leaf
from .subject import Leaf, Subject
from .terms import Unsupported

HORSE = "HorseshoeGibbsKernel"
NBREG, BERNREG, DISP = "NBRegressionGibbsKernel", "BernoulliRegressionGibbsKernel", "DispersionGibbsKernel"
NUTS = "NUTSKernel"


def special(b):
    """[(kind of step, [variables])] of the specialised steps of a sampler."""
    res = []
    for gr in b.groups():
        k = b.kernel(gr[0])
        if k == NUTS:
            continue
        op = b.steps[gr[0]].owner.op
        if isinstance(op, RandomVariable):
            res.append(("conjugate", gr))
        else:
            res.append((k, gr))
    return res


# ---------------------------------------------------------------------- symbolic
class Denoted:
    """The denotation of every random variable of the user's model."""

    def __init__(self, m):
        self.m = m
        t.reset_positive()
        L = {}
        for i, v in enumerate(list(m.data) + list(m.shared)):
            dims = [s if s is not None else f"d{i}_{k}" for k, s in enumerate(v.type.shape)]
            L[v] = leaf(f"data{i}", dims)
        D = Denoter(L)
        for rv in m.rvs:
            D.tensor(rv)
        self.by = {d.node: d for d in D.draws}
        self.d = {rv: self.by[rv.owner] for rv in m.rvs}

    def idx(self, d):
        return tuple(t.ix(t.fresh_ix()) for _ in d.dims) if False else tuple(f"i{k}" for k in range(len(d.dims)))

    def params(self, rv):
        d = self.d[rv]
        return [p(*self.idx(d)) for p in d.params]

    def mentions(self, e, rv):
        return bool(laws.depends_on(e, {self.d[rv].name}).terms)

    def kids(self, rv):
        return [c for c in self.m.rvs if any(self.mentions(p, rv) for p in self.params(c))]

    def is_value(self, e, rv):
        d = self.d[rv]
        return (e - t.sym(d.name, *[t.ix(i) if isinstance(i, str) else i for i in self.idx(d)])).is_zero()


def _need(ok, what):
    if not ok:
        raise Unsupported(f"hypothesis not established: {what}")


def symbolic(m, b):
    sp = special(b)
    if not sp:
        return "no specialised step"
    M = Denoted(m)
    for kind, gr in sp:
        rv = gr[0]
        lab = m.label(rv)
        if kind == "conjugate":
            (c,) = _one(M.kids(rv), f"one observation model of {lab}")
            d, dc = M.d[rv], M.d[c]
            _need((d.kind, dc.kind) in {("gamma", "poisson"), ("beta", "binomial"), ("beta", "nbinom")}, f"families of {lab}")
            _need(_same(d.dims, dc.dims), f"{lab} has one element per observation")
            ps = M.params(c)
            _need(M.is_value(ps[-1], rv), f"{lab} is the last parameter of its observation model")
            _need(not any(M.mentions(p, rv) for p in ps[:-1]), f"{lab} enters once")
        elif kind == HORSE:
            _need(len(gr) == 2, "two shrinkage parameters")
            ka, kb = M.kids(gr[0]), M.kids(gr[1])
            (c,) = _one(ka, "one normal vector")
            _need(kb == ka, "one normal vector")
            d = M.d[c]
            _need(d.kind == "normal" and len(d.dims) == 1, "a normal vector")
            mean, sd = M.params(c)
            _need(mean.is_zero(), "zero mean")
            for x in gr:
                _need(M.d[x].kind == "halfcauchy", "half-Cauchy")
                p = M.params(x)
                _need(p[0].is_zero() and (p[1] - 1).is_zero(), "standard half-Cauchy")
            loc = [x for x in gr if M.d[x].dims == d.dims]
            glo = [x for x in gr if x is not (loc[0] if loc else None)]
            _need(len(loc) >= 1 and (len(M.d[glo[0]].dims) == 0 or M.d[glo[0]].dims == [1]), "local and global parameter")
            lo, gl = M.d[loc[0]], M.d[glo[0]]
            _need((sd - t.sym(lo.name, t.ix("i0")) * t.sym(gl.name, *[t.ix(None, 0)] * len(gl.dims))).is_zero(), "std. dev. is the product")
        elif kind in (NBREG, BERNREG):
            (c,) = _one(M.kids(rv), f"one observation model of {lab}")
            d, dc = M.d[rv], M.d[c]
            _need(d.kind == "normal" and len(d.dims) == 1 and M.params(rv)[0].is_zero(), "zero-mean normal vector")
            _need(dc.kind == ("nbinom" if kind == NBREG else "bernoulli") and len(dc.dims) == 1, "observation family")
            ps = M.params(c)
            _need(not any(M.mentions(p, rv) for p in ps[:-1]), "coefficients enter the probability only")
            u = t.log(ps[-1]) - t.log(1 - ps[-1])
            _need(_linear(u, M, rv), "the logit is linear in the coefficients")
        elif kind == DISP:
            (c,) = _one(M.kids(rv), f"one observation model of {lab}")
            d, dc = M.d[rv], M.d[c]
            _need(d.kind == "gamma" and d.dims == [], "scalar gamma dispersion")
            _need(dc.kind == "nbinom" and len(dc.dims) == 1, "negative-binomial vector")
            ps = M.params(c)
            _need((ps[0] - t.sym(d.name)).is_zero() and not M.mentions(ps[1], rv), "dispersion enters as itself")
        else:
            raise Unsupported(f"no hypotheses are known for {kind}")
    return "normal-form"


def _same(a, b):
    # dimensions that are not broadcastable are equal wherever the model is defined
    return len(a) == len(b) and all(x == y or (x != 1 and y != 1 and not (isinstance(x, int) and isinstance(y, int))) for x, y in zip(a, b))


def _one(xs, what):
    _need(len(xs) == 1, what)
    return xs


def _linear(u, M, rv):
    name = M.d[rv].name
    for mono in u.terms:
        hits = 0
        for a, x in mono[0]:
            if a[0] == "s" and a[1] == name:
                if x != 1:
                    return False
                hits += 1
            elif laws.depends_on(t.Expr({(((a, t.F1),), ()): t.F1}), {name}).terms:
                return False
        if hits != 1:
            return False
    return True


# ---------------------------------------------------------------------- numeric
def _random_value(rv, v, rng):
    k = rv.owner.op.name
    sh = np.shape(v)
    if k == "beta":
        return rng.uniform(0.08, 0.92, size=sh)
    if k == "normal":
        return np.asarray(v) + rng.normal(size=sh)
    return rng.gamma(2.0, 1.0, size=sh) + 0.1


class Numeric:
    def __init__(self, m, b):
        self.m, self.b, self.joint = m, b, O.Joint(m)
        self.v = b.view()

    def wit(self, vals):
        return {"model": self.m.name, "values": {self.m.label(r): np.asarray(x).tolist() for r, x in vals.items()}}

    def compiled(self, gr, outs):
        outs, ph = self.v.cut(gr, outs)
        ins = self.b.inputs() + list(ph.values())
        return outs, ins, ph

    def env(self, ins, ph, vals):
        e = self.b.env(vals)
        e.update({p: np.asarray(vals[rv], dtype=p.type.dtype) for rv, p in ph.items()})
        return [e[i] for i in ins]

    def check(self, n, seed):
        cnt = 0
        for kind, gr in special(self.b):
            for k in range(n):
                vals = self.m.prior_values(seed + 31 * k)
                rng = np.random.default_rng([seed, k, 9])
                if kind == "conjugate":
                    cnt += self.conjugate(gr[0], vals, rng)
                elif kind == HORSE:
                    cnt += self.horseshoe(gr, vals, rng)
                elif kind in (NBREG, BERNREG):
                    cnt += self.regression(kind, gr[0], vals, rng)
                elif kind == DISP:
                    cnt += self.dispersion(gr[0], vals, rng)
        return cnt

    def fail(self, gr, what, vals):
        raise Refuted(f"{self.m.name}: the step of {', '.join(self.m.label(r) for r in gr)} ({self.b.kernel(gr[0])}) is not valid for this model: {what}", self.wit(vals))

    def deltas(self, gr, vals, news):
        """Differences of every density term of the model when the variables of `gr` change."""
        a, b = self.joint.terms(vals), self.joint.terms({**vals, **dict(zip(gr, news))})
        return {rv: b[rv] - a[rv] for rv in self.m.rvs}

    def conjugate(self, rv, vals, rng):
        m = self.m
        kids = [c for c in m.rvs if rv in m.parents(c)]
        node = self.v.step[rv].owner
        if not isinstance(node.op, RandomVariable):
            return 0
        outs, ins, ph = self.compiled([rv], list(node.inputs[3:]))
        f = aesara.function(ins, outs, on_unused_input="ignore")
        p = f(*self.env(ins, ph, vals))
        kind = node.op.name
        n = 0
        for _ in range(3):
            new = _random_value(rv, vals[rv], rng)
            d = self.deltas([rv], vals, [new])
            want = sum(d.values())
            if kind == "beta" and kids and kids[0].owner.op.name == "nbinom":
                # the law of this step is a known finding of C01; here: does the model have its form?
                c = kids[0]
                if len(kids) != 1 or np.shape(vals[c]) != np.shape(vals[rv]):
                    self.fail([rv], "the beta variable has other dependents or another shape than the counts", vals)
                k0 = self.joint.params(vals)[c][0]
                got = d[rv] + O.logpdf("nbinom", [k0, new], vals[c]) - O.logpdf("nbinom", [k0, vals[rv]], vals[c])
            else:
                try:
                    got = O.logpdf(kind, p, new) - O.logpdf(kind, p, vals[rv])
                except ValueError as e:
                    self.fail([rv], f"its parameters do not fit the variable ({e})", vals)
            if not np.isclose(got, want, rtol=1e-7, atol=1e-7 * max(1.0, abs(want))):
                self.fail([rv], f"its log-density changes by {got}, that of the model by {want}", vals)
            n += 1
        return n

    def horseshoe(self, gr, vals, rng):
        m = self.m
        kids = [c for c in m.rvs if any(x in m.parents(c) for x in gr)]
        n = 0
        for _ in range(3):
            new = [_random_value(x, vals[x], rng) for x in gr]
            d = self.deltas(gr, vals, new)
            want = sum(d.values())
            if len(gr) != 2 or len(kids) != 1:
                self.fail(gr, f"the shrinkage parameters have the dependents {[m.label(c) for c in kids]}", vals)
            (c,) = kids
            beta = np.asarray(vals[c])
            if beta.ndim != 1 or np.broadcast_shapes(np.shape(new[0]), np.shape(new[1])) != beta.shape:
                self.fail(gr, "there is not one local parameter per coefficient", vals)
            if min(np.size(x) for x in new) != 1:
                self.fail(gr, "there is no single global parameter", vals)

            def ideal(x):
                return O.logpdf("halfcauchy", [0.0, 1.0], x[0]) + O.logpdf("halfcauchy", [0.0, 1.0], x[1]) + O.logpdf("normal", [0.0, x[0] * x[1]], beta)

            got = ideal(new) - ideal([np.asarray(vals[x]) for x in gr])
            if not np.isclose(got, want, rtol=1e-7, atol=1e-7 * max(1.0, abs(want))):
                self.fail(gr, f"the log-density of its target changes by {got}, that of the model by {want}", vals)
            n += 1
        return n

    def regression(self, kind, rv, vals, rng):
        """The Gaussian law of the step given the auxiliary weights against the model's own logit."""
        m = self.m
        kids = [c for c in m.rvs if rv in m.parents(c)]
        beta = np.asarray(vals[rv], dtype=float)
        if len(kids) != 1:
            self.fail([rv], f"the coefficients have the dependents {[m.label(c) for c in kids]}", vals)
        (c,) = kids
        y = np.asarray(vals[c], dtype=float)
        fam = c.owner.op.name

        def logit(x):
            p = self.joint.params({**vals, rv: x})[c]
            return np.broadcast_to(np.log(p[-1]) - np.log1p(-p[-1]), y.shape), p

        # small arguments: probabilities close to one have no accurate logit
        eps = 1.0 / (1.0 + max(np.abs(x).max() for x in self.scale(vals, rv, c)))
        l0, p0 = logit(np.zeros_like(beta))
        b1, d1 = eps * rng.normal(size=beta.shape), eps * rng.normal(size=beta.shape)
        l1, p1 = logit(b1)
        l2, p2 = logit(d1)
        l3, _ = logit(2 * b1 + d1)
        prior = self.joint.params(vals)[rv]
        if fam not in ("nbinom", "bernoulli") or y.ndim != 1 or beta.ndim != 1:
            self.fail([rv], f"the observations are {fam} of rank {y.ndim}", vals)
        if rv.owner.op.name != "normal" or np.any(np.asarray(prior[0]) != 0):
            self.fail([rv], "the coefficients do not have zero-mean normal priors", vals)
        if not np.allclose(l0, 0, atol=1e-9) or not np.allclose(l3, 2 * l1 + l2, rtol=1e-6, atol=1e-7):
            self.fail([rv], "the logit is not a linear function of the coefficients", vals)
        if fam == "nbinom" and not (np.allclose(p0[0], p1[0]) and np.allclose(p1[0], p2[0])):
            self.fail([rv], "the dispersion depends on the coefficients", vals)
        A = np.stack([logit(eps * e)[0] / eps for e in np.eye(beta.size)], axis=-1)  # logit = A beta
        l1 = A @ beta
        if fam == "nbinom":
            h = np.broadcast_to(p1[0], y.shape)
            bpar, kappa = y + h, h - (y + h) / 2  # p^h (1 - p)^y
        else:
            bpar, kappa = np.ones_like(y), y - 0.5
        sd = np.broadcast_to(prior[1], beta.shape)

        outs, ph = self.v.cut([rv], [self.v.step[rv]])
        ins = self.b.inputs() + list(ph.values())
        vs = self.env(ins, ph, vals)
        S = Subject(m.name, outs, [Leaf(i, f"in{k}", list(np.shape(x))) for k, (i, x) in enumerate(zip(ins, vs))])
        env = {f"in{k}": x for k, x in enumerate(vs)}
        shapes = S.draw_shapes(env)
        pg = [k for k, n in enumerate(S.nodes) if n.op.name == "polyagamma"]
        nr = [k for k, n in enumerate(S.nodes) if n.op.name in ("normal", "standard_normal")]
        if len(pg) != 1 or len(pg) + len(nr) != len(S.nodes):
            return 0  # another algorithm: nothing is known about it
        w = rng.gamma(2.0, 0.5, size=shapes[pg[0]]) + 0.05

        def run(z):
            forced = [w if k in pg else z.get(k, np.zeros(s)) for k, s in enumerate(shapes)]
            return S.run(env, forced)

        (m0,), params, _ = run({})
        b_, c_ = [np.broadcast_to(np.asarray(q, dtype=float), y.shape) for q in params[S.nodes[pg[0]]]]
        if not (np.allclose(b_, bpar) and np.allclose(np.abs(c_), np.abs(l1), rtol=1e-6, atol=1e-9)):
            self.fail([rv], f"the auxiliary weights have parameters {b_.tolist()}, {c_.tolist()} instead of {bpar.tolist()}, +-{l1.tolist()}", vals)
        cols = []
        for k in nr:
            for j in range(int(np.prod(shapes[k], dtype=int))):
                z = np.zeros(shapes[k])
                z.flat[j] = 1.0
                cols.append(run({k: z})[0][0] - m0)
        J = np.stack(cols, axis=-1)
        W = np.broadcast_to(w, y.shape)
        P = A.T @ (W[:, None] * A) + np.diag(1 / sd**2)
        if not np.allclose(P @ m0, A.T @ kappa, rtol=1e-5, atol=1e-6 * (1 + np.abs(P).max())):
            self.fail([rv], f"its mean is {m0.tolist()} instead of {np.linalg.solve(P, A.T @ kappa).tolist()}", vals)
        if not np.allclose(P @ (J @ J.T), np.eye(beta.size), rtol=1e-5, atol=1e-5 * (1 + np.abs(P).max())):
            self.fail([rv], "its covariance is not that of the coefficients given the weights", vals)
        return 3

    def scale(self, vals, rv, c):
        """Slopes of the logit at the origin."""
        z = np.zeros(np.shape(vals[rv]))
        res = []
        for e in np.eye(z.size).reshape((-1,) + z.shape):
            p = np.asarray(self.joint.params({**vals, rv: z + 1e-4 * e})[c][-1])
            res.append((np.log(p) - np.log1p(-p)) / 1e-4)
        return res

    def dispersion(self, rv, vals, rng):
        m = self.m
        kids = [c for c in m.rvs if rv in m.parents(c)]
        n = 0
        for _ in range(3):
            new = _random_value(rv, vals[rv], rng)
            if len(kids) != 1 or kids[0].owner.op.name != "nbinom":
                self.fail([rv], f"the dispersion has the dependents {[m.label(c) for c in kids]}", vals)
            (c,) = kids
            if np.ndim(vals[rv]) != 0 or rv.owner.op.name != "gamma" or np.ndim(vals[c]) != 1:
                self.fail([rv], "the dispersion is not a scalar gamma variable of a vector of counts", vals)
            a, b = self.joint.params(vals)[c], self.joint.params({**vals, rv: new})[c]
            if not (np.allclose(a[0], vals[rv]) and np.allclose(b[0], new) and np.allclose(a[1], b[1])):
                self.fail([rv], "the variable is not (only) the dispersion of the counts", vals)
            n += 1
        return n
