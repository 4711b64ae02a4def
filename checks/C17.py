"""C17: reparametrisation relations preserve the distribution."""
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.fg import FunctionGraph
from aesara.graph.kanren import KanrenRelationSub
from aesara.tensor.random import RandomStream
from scipy import stats

from aevc import graph as g, laws, oracle, terms as t
from aevc.denote import dim_expr
from aevc.subject import Leaf, Subject, identity
from aevc.terms import Unsupported

check = Check("C17", "proof")
check.assumptions += [
    "real arithmetic in the obligations (replays run in float64); scale parameters are positive",
    "lemma (not machine-checked): if g is strictly increasing with derivative g' and log f_X(g(z)) + log g'(z) = log f_Z(z) for all z, then g(Z) has density f_X",
    "lemma (not machine-checked): X ~ InvGamma(1, c) iff 1/X ~ Exponential with rate c",
]
check.trusted += [
    "density contracts of the families in aevc/laws.py (compared with SciPy in every run) and the op contracts of aevc/denote.py (cross-checked at random points in every run)",
    "Aesara's random ops draw one independent variate per element from the distribution of their parameters",
    "aevc/terms.py normal-form engine",
]
KNOWN = "invgamma-exponential-scale"
FL, FI = "aemcmc.transforms.location_scale_transform", "aemcmc.transforms.invgamma_exponential"
SIZES = [{"m": 2, "n": 3, "val:k": 4}, {"m": 1, "n": 2, "val:k": 4}, {"m": 3, "n": 1, "val:k": 4}]
FAMILIES = ["normal", "cauchy", "gumbel", "laplace", "logistic"]


def apply(relation, X):
    fg = FunctionGraph(outputs=[X], clone=False)
    r = KanrenRelationSub(relation).transform(fg, X.owner)
    if not r:
        return None
    # the relation's goals are given node outputs: the first entry is the variable's replacement
    r = r[0] if isinstance(r, (list, tuple)) else list(r.values())[0]
    return r


class Config:
    def __init__(self, name, leaves, make):
        self.name, self.leaves, self.make = name, leaves, make


def configs(fam):
    f = lambda s: getattr(s, fam)  # noqa: E731
    ms, ss = at.dscalar("mu"), at.dscalar("sd")
    mv, sv = at.dvector("mu"), at.dvector("sd")
    mm, sm = at.dmatrix("mu"), at.dmatrix("sd")
    mc, sr = at.TensorType("float64", (None, 1))("mu"), at.TensorType("float64", (1, None))("sd")
    k = at.lscalar("k")
    P = lambda v, d: Leaf(v, v.name, d, "pos")  # noqa: E731
    N = lambda v, d: Leaf(v, v.name, d)  # noqa: E731
    K = Leaf(k, "k", [], lambda rng, sh: np.asarray(4))
    yield Config("scalars", [N(ms, []), P(ss, [])], lambda s: f(s)(ms, ss))
    yield Config("vectors", [N(mv, ["n"]), P(sv, ["n"])], lambda s: f(s)(mv, sv))
    yield Config("vector location", [N(mv, ["n"]), P(ss, [])], lambda s: f(s)(mv, ss))
    yield Config("vector scale", [N(ms, []), P(sv, ["n"])], lambda s: f(s)(ms, sv))
    yield Config("matrix location, vector scale", [N(mm, ["m", "n"]), P(sv, ["n"])], lambda s: f(s)(mm, sv))
    yield Config("vector location, matrix scale", [N(mv, ["n"]), P(sm, ["m", "n"])], lambda s: f(s)(mv, sm))
    yield Config("column and row", [N(mc, ["m", 1]), P(sr, [1, "n"])], lambda s: f(s)(mc, sr))
    yield Config("scalars, fixed size", [N(ms, []), P(ss, [])], lambda s: f(s)(ms, ss, size=(3,)))
    yield Config("scalars, matrix size", [N(ms, []), P(ss, [])], lambda s: f(s)(ms, ss, size=(2, 3)))
    yield Config("vector location, larger size", [N(mv, [3]), P(ss, [])], lambda s: f(s)(mv, ss, size=(2, 3)))
    yield Config("constants, fixed size", [], lambda s: f(s)(0.5, 2.0, size=(3,)))
    yield Config("constants", [], lambda s: f(s)(-1.0, 0.25))
    yield Config("integer constants", [], lambda s: f(s)(1, 2, size=(2,)))
    yield Config("scalars, symbolic size", [N(ms, []), P(ss, []), K], lambda s: f(s)(ms, ss, size=(k,)))


def point_for(subj, D, extra):
    def point(k):
        rng = np.random.default_rng(SEED * 91 + k)
        dims = SIZES[k % 3]
        env = subj.inputs(rng, dims)
        for nm in extra:
            env[nm] = np.full((9,) * 3, 1.0)
        return env, dims, {f"i{q}": 0 for q in range(3)}
    return point


def one_draw(D, node_filter=None):
    ds = D.draws
    if len(ds) != 1:
        raise Unsupported(f"{len(ds)} draws")
    return ds[0]


def affine(o, d, idx):
    """o = A + B z with z the draw's element at the same position."""
    z = t.sym(d.name, *[t.ix(i) for i in idx])
    dep = laws.depends_on(o, {d.name})
    A = o - dep
    B = dep * t.power(z, -1)
    if laws.depends_on(B, {d.name}).terms or not dep.terms:
        raise Unsupported("not affine in the element of the draw")
    return A, B


for fam in FAMILIES:
    for c in configs(fam):
        tag = f"{fam}: {c.name}"
        s = RandomStream(5)
        X = c.make(s)
        mu, sd = X.owner.inputs[3:]
        try:
            from aemcmc.transforms import location_scale_transform

            Y = apply(location_scale_transform, X)
        except Exception as exc:
            check.replay(f"{tag}: rewrite", FL, lambda e=exc: (_ for _ in ()).throw(e))
            continue
        if Y is None:
            check.skip(tag, FL, "not rewritten")
            continue
        S, S0 = Subject(tag, [Y], c.leaves), Subject(tag, [X], c.leaves)

        def agree(S=S, S0=S0):
            for k, dims in enumerate(SIZES):
                S.selfcheck(dims, k)
                S0.selfcheck(dims, k)
            return "concrete evaluation"

        def law(S=S, S0=S0, fam=fam, tag=tag):
            D0, (o0,), _ = S0.denote()
            d0 = one_draw(D0)
            dims0, idx = list(o0.dims), [f"i{k}" for k in range(len(o0.dims))]
            m, sc = [p(*idx) for p in d0.params]
            D, (o,), _ = S.denote()
            d = one_draw(D)
            if [dim_expr(q) for q in o.dims] != [dim_expr(q) for q in dims0]:
                raise Unsupported(f"shape {o.dims} instead of {dims0}")
            if d.kind not in (fam, {"normal": "standard_normal"}.get(fam)):
                raise Unsupported(f"draw of {d.kind}")
            A, B = affine(o(*idx), d, idx)
            p = [q(*idx) for q in d.params] if d.params else [t.lift(0), t.lift(1)]
            pt = point_for(S, D, ())
            b1 = identity(A + B * p[0], m, pt, f"{tag}: location")
            b2 = identity(B * p[1], sc, pt, f"{tag}: scale")
            return b1 if b1 == b2 else f"{b1}, {b2}"

        def indep(S=S, S0=S0):
            D0, (o0,), _ = S0.denote()
            D, (o,), _ = S.denote()
            d = one_draw(D)
            if [dim_expr(q) for q in d.dims] != [dim_expr(q) for q in o0.dims]:
                raise Unsupported(f"draw of shape {d.dims} for a variable of shape {o0.dims}")
            return "normal-form"

        def concrete(S=S, S0=S0, X=X, Y=Y, tag=tag, fam=fam):
            n = 0
            if Y.type.ndim != X.type.ndim or Y.type.dtype != X.type.dtype:
                raise Refuted(f"{tag}: the rewritten variable has type {Y.type} instead of {X.type}", {"model": tag})
            for k, (far, dims) in enumerate([(far, d) for far in (0, 2, 4, 7) for d in SIZES]):
                rng = np.random.default_rng(SEED * 31 + k)
                env = S.inputs(rng, dims, far)
                (sh0,) = S0.draw_shapes(env)
                _, p0, _ = S0.run(env, [np.zeros(sh0)])
                m, sc = [np.broadcast_to(q, sh0) for q in p0[S0.nodes[0]]]
                shs = S.draw_shapes(env)
                if len(shs) != 1:
                    raise Refuted(f"{tag}: {len(shs)} random variables instead of one", {"model": tag})
                zs = [np.random.default_rng(k + j).normal(size=shs[0]) for j in range(2)]
                outs = []
                for z in zs:
                    (y,), p, _ = S.run(env, [z])
                    outs.append(y)
                    if y.shape != sh0:
                        raise Refuted(f"{tag}: the rewritten variable has shape {y.shape} instead of {sh0}", {"inputs": env})
                if shs[0] != sh0:
                    raise Refuted(f"{tag}: {shs[0]} standard variates are drawn for the {sh0} elements of the variable", {"inputs": env})
                q = p[S.nodes[0]]
                a, b = ([np.broadcast_to(v, sh0) for v in q] if q else (np.zeros(sh0), np.ones(sh0)))
                B = (outs[1] - outs[0]) / (zs[1] - zs[0])
                A = outs[0] - B * zs[0]
                eps = 1e-12 * (np.abs(m) + np.abs(sc))  # rounding of B, which is a difference
                if not (np.all(np.abs(A + B * a - m) <= 1e-6 * np.abs(m) + eps) and np.all(np.abs(B * b - sc) <= 1e-6 * sc + eps)) or S.nodes[0].op.name not in (fam, "standard_normal"):
                    raise Refuted(f"{tag}: rewritten to {A.tolist()} + {B.tolist()} * {S.nodes[0].op.name}({a.tolist()}, {b.tolist()}) for location {m.tolist()} and scale {sc.tolist()}", {"inputs": env})
                n += 1
            return n, n

        def montecarlo(S=S, S0=S0, tag=tag, fam=fam):
            N = 800 if not THOROUGH else 20000
            env = S.inputs(np.random.default_rng(SEED * 3), SIZES[0])
            (sh0,) = S0.draw_shapes(env)
            _, p0, _ = S0.run(env, [np.zeros(sh0)])
            m, sc = [np.broadcast_to(q, sh0) for q in p0[S0.nodes[0]]]
            fn = S.drawer(3)
            xs = np.array([fn(*[env[l.name] for l in S.leaves])[0] for _ in range(N)])
            dist = {"normal": stats.norm, "cauchy": stats.cauchy, "gumbel": stats.gumbel_r, "laplace": stats.laplace, "logistic": stats.logistic}[fam]
            if xs.shape[1:] != sh0:
                raise Refuted(f"{tag}: shape {xs.shape[1:]} instead of {sh0}", {"inputs": env})
            U = []
            for i in np.ndindex(*sh0):
                col = xs[(slice(None),) + i]
                u = dist(m[i], sc[i]).cdf(col)
                pv = stats.kstest(u, "uniform").pvalue
                if pv < 1e-9:
                    raise Refuted(f"{tag}: element {i} does not have its distribution (KS p-value {pv})", {"inputs": env})
                U.append(stats.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)))
            if len(U) > 1 and np.abs(np.corrcoef(np.array(U)) - np.eye(len(U))).max() > 6.5 / np.sqrt(N):
                raise Refuted(f"{tag}: the elements are correlated", {"inputs": env})
            return N, len(U)

        check.ob(f"{tag}: denotations agree with the graphs", FL, agree)
        check.ob(f"{tag}: same location, scale and family", FL, law)
        check.ob(f"{tag}: one independent variate per element", FL, indep)
        check.replay(f"{tag}: forced variates", FL, concrete)
        if THOROUGH or (fam in ("normal", "gumbel") and c.name in ("vectors", "scalars, matrix size", "column and row")):
            check.replay(f"{tag}: Monte-Carlo law", FL, montecarlo)

    def closure(fam=fam):
        """The family is closed under location and scale (per its density contract)."""
        t.reset_positive()
        t.declare_positive("s")
        m, s_, z = t.sym("m"), t.sym("s"), t.sym("z")
        lhs = laws.logp(fam, [m, s_], m + s_ * z) + t.log(s_)
        return identity(lhs, laws.logp(fam, [t.lift(0), t.lift(1)], z), None, f"{fam}: location-scale closure")

    check.ob(f"{fam}: density of m + s z", FL, closure)

    def contract(fam=fam):
        rng = np.random.default_rng(SEED)
        n = 0
        for _ in range(4):
            m, s_ = rng.normal(), rng.uniform(0.3, 2)
            x = rng.normal(size=2)
            ev = [t.neval(laws.logp(fam, [t.sym("m"), t.sym("s")], t.sym("x")), {"m": m, "s": s_, "x": v, "pi": np.pi, "2pi": 2 * np.pi}, {}) for v in x]
            want = [oracle.logpdf(fam, [m, s_], v) for v in x]
            if not np.allclose(ev, want):
                raise Unsupported(f"the density contract of {fam} differs from SciPy: {ev} {want}")
            n += 2
        return "concrete evaluation"

    check.ob(f"{fam}: density contract agrees with SciPy", "aevc.laws", contract)


# ------------------------------------------------------------------ inverse gamma with shape one
def ig_configs():
    c, cv, k = at.dscalar("c"), at.dvector("c"), at.lscalar("k")
    yield Config("scalar", [Leaf(c, "c", [], "pos")], lambda s: s.invgamma(1.0, c))
    yield Config("vector", [Leaf(cv, "c", ["n"], "pos")], lambda s: s.invgamma(1.0, cv))
    yield Config("fixed size", [Leaf(c, "c", [], "pos")], lambda s: s.invgamma(1.0, c, size=(3,)))
    yield Config("larger size", [Leaf(cv, "c", [3], "pos")], lambda s: s.invgamma(1.0, cv, size=(2, 3)))
    yield Config("constant scale", [], lambda s: s.invgamma(1.0, 2.5, size=(2,)))


for c in ig_configs():
    tag = f"invgamma: {c.name}"
    X = c.make(RandomStream(5))
    try:
        from aemcmc.transforms import invgamma_exponential

        Y = apply(invgamma_exponential, X)
    except Exception as exc:
        check.replay(f"{tag}: rewrite", FI, lambda e=exc: (_ for _ in ()).throw(e))
        continue
    if Y is None:
        check.skip(tag, FI, "not rewritten")
        continue
    S, S0 = Subject(tag, [Y], c.leaves), Subject(tag, [X], c.leaves)

    def law(S=S, S0=S0, tag=tag):
        D0, (o0,), _ = S0.denote()
        d0 = one_draw(D0)
        idx = [f"i{k}" for k in range(len(o0.dims))]
        sc = d0.params[1](*idx)
        D, (o,), _ = S.denote()
        d = one_draw(D)
        if [dim_expr(q) for q in o.dims] != [dim_expr(q) for q in o0.dims] or [dim_expr(q) for q in d.dims] != [dim_expr(q) for q in o0.dims]:
            raise Unsupported(f"shapes {o.dims}, {d.dims} instead of {o0.dims}")
        if d.kind != "exponential":
            raise Unsupported(f"draw of {d.kind}")
        z = t.sym(d.name, *[t.ix(i) for i in idx])
        # Y = w / z: Exp(scale p) / w has scale p / w
        w = o(*idx) * z
        if laws.depends_on(w, {d.name}).terms:
            raise Unsupported("not a reciprocal of the draw")
        p = d.params[0](*idx)
        if (p - sc * w).is_zero():
            raise Known(KNOWN, "rewritten to 1 / Exponential(scale=c)")
        return identity(p * sc, w, point_for(S, D, ()), f"{tag}: scale of the exponential variable")

    def concrete(S=S, S0=S0, tag=tag, X=X, Y=Y):
        known = False
        n = 0
        for k, (far, dims) in enumerate([(far, d) for far in (0, 2, 4, 7) for d in SIZES]):
            env = S.inputs(np.random.default_rng(SEED * 31 + k), dims, far)
            (sh0,) = S0.draw_shapes(env)
            _, p0, _ = S0.run(env, [np.ones(sh0)])
            sc = np.broadcast_to(p0[S0.nodes[0]][1], sh0)
            shs = S.draw_shapes(env)
            if len(shs) != 1 or S.nodes[0].op.name != "exponential":
                return 0, 0
            z = np.random.default_rng(k).gamma(2.0, size=shs[0]) + 0.1
            (y,), p, _ = S.run(env, [z])
            if y.shape != sh0 or shs[0] != sh0:
                raise Refuted(f"{tag}: shape {y.shape} from {shs[0]} variates instead of {sh0}", {"inputs": env})
            w = y * z
            pr = np.broadcast_to(p[S.nodes[0]][0], sh0)
            n += 1
            if np.allclose(pr * sc, w, rtol=1e-6, atol=0):
                continue
            if np.allclose(pr, sc * w, rtol=1e-6, atol=0):
                known = True
                continue
            raise Refuted(f"{tag}: {w.tolist()} / Exponential(scale={pr.tolist()}) for the scale {sc.tolist()}", {"inputs": env})
        if known:
            raise Known(KNOWN, "1 / Exponential(scale=c)")
        return n, n

    def agree(S=S, S0=S0):
        for k, dims in enumerate(SIZES):
            S.selfcheck(dims, k)
        return "concrete evaluation"

    check.ob(f"{tag}: denotation agrees with the graph", FI, agree)
    check.ob(f"{tag}: reciprocal of an exponential variable", FI, law)
    check.replay(f"{tag}: forced variates", FI, concrete)


# ------------------------------------------------------------------ everything else, and the other direction
def others():
    s = RandomStream(9)
    c = at.dscalar("c")
    v = at.dvector("v")
    yield "gamma", s.gamma(2.0, c), True
    yield "beta", s.beta(2.0, c), True
    yield "uniform", s.uniform(0.0, 1.0), True
    yield "halfnormal", s.halfnormal(0.5, 2.0), True
    yield "halfcauchy", s.halfcauchy(0.5, 2.0), True
    yield "lognormal", s.lognormal(0.5, 2.0), True
    yield "exponential", s.exponential(c), True
    yield "poisson", s.poisson(c), True
    yield "invgamma of shape 2", s.invgamma(2.0, c), True
    yield "invgamma of shape 1.5, size", s.invgamma(1.5, c, size=(2,)), True
    yield "invgamma of symbolic shape", s.invgamma(c, 1.0), True
    yield "invgamma with vector shapes", s.invgamma(np.array([1.0, 2.0]), 1.0), True
    yield "invgamma of scale one", s.invgamma(3.0, 1.0), True
    yield "gumbel-like sum", c + 2.0 * s.gamma(1.0, 1.0), True
    yield "multivariate normal", s.multivariate_normal(v, np.eye(2)), True
    yield "normal times normal", c + s.normal(0.0, 1.0) * s.normal(0.0, 1.0), True
    yield "shifted non-standard normal", c + 2.0 * s.normal(1.0, 1.0), True


for name, X, _ in others():
    def untouched(X=X, name=name):
        from aemcmc.transforms import invgamma_exponential, location_scale_transform

        n = 0
        for rel in (location_scale_transform, invgamma_exponential):
            try:
                r = apply(rel, X)
            except Exception:
                r = None  # no result
            if r is not None and r is not X:
                raise Refuted(f"{name} is rewritten to {aesara.printing.debugprint(r, file='str')[:600]}", {"variable": name}, replayed="structural fact of the relation's result")
            n += 1
        return "structure of the relation's result"

    check.ob(f"not rewritten: {name}", f"{FL}, {FI}", untouched)


def back():
    """The relations in the other direction: whatever they return has the same law."""
    from aemcmc.transforms import invgamma_exponential, location_scale_transform

    n = 0
    s = RandomStream(4)
    m, c = at.dscalar("m"), at.dscalar("c")
    for rel, X in ((location_scale_transform, m + c * s.normal(0.0, 1.0)), (location_scale_transform, m + c * s.normal(at.zeros_like(m), at.ones_like(c))),
                   (location_scale_transform, m + c * s.normal(0.0, 1.0, size=3)), (location_scale_transform, m + c * s.gumbel(0.0, 1.0)), (location_scale_transform, m + c * s.normal(0.5, 2.0)),
                   (invgamma_exponential, at.true_divide(at.as_tensor(1.0), s.exponential(c)))):
        try:
            Y = apply(lambda x, y: rel(y, x), X)
        except Exception:
            continue  # no result
        if Y is None:
            continue
        draw = [x for x in g.draws([X])][0].op.name
        f = aesara.function([m, c], Y)
        xs = np.array([np.ravel(f(0.7, 1.9)) for _ in range(400)]).ravel()
        if draw == "exponential":
            cdf = lambda x: stats.expon(scale=1.9).sf(1 / x)  # noqa: E731
        else:
            z = [q.data for q in [x for x in g.draws([X])][0].inputs[3:] if hasattr(q, "data")] or [0.0, 1.0]
            dist = {"normal": stats.norm, "gumbel": stats.gumbel_r}[draw]
            cdf = dist(0.7 + 1.9 * float(z[0]), 1.9 * float(z[1])).cdf
        if len(xs) >= 400 and stats.kstest(np.unique(xs), cdf).pvalue < 1e-9:
            raise Refuted("a relation used in the other direction changes the distribution", {"expression": aesara.printing.debugprint(X, file="str")[:400]})
        n += 1
    return max(n, 1), n


check.replay("relations in the other direction", f"{FL}, {FI}", back)
sys.exit(check.finish())
