"""C01: conjugate steps sample the exact full conditional."""
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream
from scipy import special as sps

from aevc import fitting, laws, smt, terms as t
from aevc.denote import dim_expr
from aevc.steps import build, step_graph
from aevc.subject import Leaf, Subject, identity
from aevc.terms import Unsupported, ix

check = Check("C01", "proof")
check.assumptions += [
    "real arithmetic in the obligations (replays run in float64)",
    "observed counts are valid for their distribution and have the shape of the observed variable; hyper-parameters are positive",
]
check.trusted += [
    "density contracts of gamma, beta, poisson, binomial, nbinom in aevc/laws.py (compared with scipy in every run)",
    "Aesara's random ops draw from the distribution of their parameters (sampled in the Monte-Carlo replay)",
    "aevc/terms.py normal-form engine",
]
FUNC = {"gp": "aemcmc.conjugates.local_gamma_poisson_posterior", "bb": "aemcmc.conjugates.local_beta_binomial_posterior",
        "bn": "aemcmc.conjugates.local_beta_negative_binomial_posterior"}
y_, L = t.sym, t.lift


class Case:
    """prior(*idx) -> (kind, params) in user terms; lik(*idx) -> (kind, params builder of x)."""

    def __init__(self, fam, name, obs, rv, leaves, prior, lik, ydims, cut=None):
        self.fam, self.name, self.obs, self.rv, self.leaves = fam, name, obs, rv, leaves
        self.prior, self.lik, self.ydims, self.cut = prior, lik, ydims, cut or {}


def prior_logp(kind, p, x):
    if kind == "gamma":  # user-level: shape and rate
        a, r = p
        return (a - 1) * t.log(x) - r * x
    if kind == "beta":
        a, b = p
        return (a - 1) * t.log(x) + (b - 1) * t.log(1 - x)
    raise Unsupported(kind)


def lik_logp(kind, p, x, y):
    if kind == "poisson":
        return y * t.log(x) - x
    if kind == "binomial":
        return y * t.log(x) + (p[0] - y) * t.log(1 - x)
    if kind == "nbinom":  # pmf C(y + n - 1, y) x^n (1 - x)^y
        return p[0] * t.log(x) + y * t.log(1 - x)
    raise Unsupported(kind)


def cases():
    res = []
    r = lambda: RandomStream(11)  # noqa: E731

    def gp(name, mk):
        s = r()
        res.append(Case("gp", "gamma-poisson " + name, *mk(s)))

    def sc(v):
        return lambda *i: v

    def obsd(Y, ndim, name="y"):
        v = Y.type(name)
        return v

    # ---- gamma / Poisson
    def k1(s):
        lam = s.gamma(2.25, 0.5)
        Y = s.poisson(lam)
        y = Y.type("y")
        return {Y: y}, lam, [Leaf(y, "y", [], "count")], lambda: ("gamma", (L(2.25), L(0.5))), lambda: ("poisson", ()), []
    gp("scalar, constant hyper-parameters", k1)

    def k2(s):
        lam = s.gamma(2.0, 3.0, size=(4,))
        Y = s.poisson(lam)
        y = Y.type("y")
        return {Y: y}, lam, [Leaf(y, "y", [4], "count")], lambda i: ("gamma", (L(2), L(3))), lambda i: ("poisson", ()), [4]
    gp("vector of fixed size", k2)

    def k3(s):
        a, b = at.vector("a"), at.vector("b")
        lam = s.gamma(a, b)
        Y = s.poisson(lam)
        y = Y.type("y")
        return ({Y: y}, lam, [Leaf(y, "y", ["n"], "count"), Leaf(a, "a", ["n"], "pos"), Leaf(b, "b", ["n"], "pos")],
                lambda i: ("gamma", (y_("a", i), y_("b", i))), lambda i: ("poisson", ()), ["n"])
    gp("vector hyper-parameters", k3)

    def k4(s):
        a, b, n = at.scalar("a"), at.scalar("b"), at.lscalar("n")
        lam = s.gamma(a, b, size=(n,))
        Y = s.poisson(lam)
        y = Y.type("y")
        return ({Y: y}, lam, [Leaf(y, "y", ["val:n"], "count"), Leaf(a, "a", [], "pos"), Leaf(b, "b", [], "pos"),
                              Leaf(n, "n", [], lambda rng, sh: np.asarray(3))],
                lambda i: ("gamma", (y_("a"), y_("b"))), lambda i: ("poisson", ()), ["val:n"])
    gp("symbolic size", k4)

    def k5(s):
        a, b = at.vector("a"), at.scalar("b")
        lam = s.gamma(a, b, size=(3, 2))
        Y = s.poisson(lam)
        y = Y.type("y")
        return ({Y: y}, lam, [Leaf(y, "y", [3, 2], "count"), Leaf(a, "a", [2], "pos"), Leaf(b, "b", [], "pos")],
                lambda i, j: ("gamma", (y_("a", j), y_("b"))), lambda i, j: ("poisson", ()), [3, 2])
    gp("matrix with a broadcast shape parameter", k5)

    def k6(s):
        a, b = at.matrix("a"), at.vector("b")
        lam = s.gamma(a, b)
        Y = s.poisson(lam)
        y = Y.type("y")
        return ({Y: y}, lam, [Leaf(y, "y", ["m", "n"], "count"), Leaf(a, "a", ["m", "n"], "pos"), Leaf(b, "b", ["n"], "pos")],
                lambda i, j: ("gamma", (y_("a", i, j), y_("b", j))), lambda i, j: ("poisson", ()), ["m", "n"])
    gp("matrix, rows share rates", k6)

    def k7(s):
        al = s.gamma(2.0, 1.5, name="al")
        th = s.normal(0.0, 1.0, name="th")
        lam = s.gamma(al, at.exp(th), size=(3,), name="lam")
        Y = s.poisson(lam)
        y = Y.type("y")
        ca, ct = at.scalar("cal"), at.scalar("cth")
        return ({Y: y}, lam, [Leaf(y, "y", [3], "count"), Leaf(ca, "cal", [], "pos"), Leaf(ct, "cth", [])],
                lambda i: ("gamma", (y_("cal"), t.exp(y_("cth")))), lambda i: ("poisson", ()), [3], {al: ca, th: ct})
    gp("latent hyper-parameters", k7)

    def k7b(s):
        al = s.gamma(2.0, 1.5, size=(3,), name="al")
        lam = s.gamma(2.5, al, name="lam")
        Y = s.poisson(lam)
        y = Y.type("y")
        ca = at.vector("cal")
        return ({Y: y}, lam, [Leaf(y, "y", [3], "count"), Leaf(ca, "cal", [3], "pos")],
                lambda i: ("gamma", (L(2.5), y_("cal", i))), lambda i: ("poisson", ()), [3], {al: ca})
    gp("latent rates", k7b)

    # ---- beta / binomial
    def bb(name, mk):
        res.append(Case("bb", "beta-binomial " + name, *mk(r())))

    def b1(s):
        p = s.beta(2.5, 1.5)
        Y = s.binomial(10, p)
        y = Y.type("y")
        return {Y: y}, p, [Leaf(y, "y", [], "count")], lambda: ("beta", (L(2.5), L(1.5))), lambda: ("binomial", (L(10),)), []
    bb("scalar", b1)

    def b2(s):
        a, b, n = at.vector("a"), at.vector("b"), at.lvector("N")
        p = s.beta(a, b)
        Y = s.binomial(n, p)
        y = Y.type("y")
        return ({Y: y}, p, [Leaf(y, "y", ["n"], "count"), Leaf(a, "a", ["n"], "pos"), Leaf(b, "b", ["n"], "pos"), Leaf(n, "N", ["n"], lambda g_, sh: 20 + g_.poisson(3, size=sh))],
                lambda i: ("beta", (y_("a", i), y_("b", i))), lambda i: ("binomial", (y_("N", i),)), ["n"])
    bb("vectors", b2)

    def b3(s):
        a, b, n = at.scalar("a"), at.scalar("b"), at.lscalar("N")
        p = s.beta(a, b, size=(3,))
        Y = s.binomial(n, p)
        y = Y.type("y")
        return ({Y: y}, p, [Leaf(y, "y", [3], "count"), Leaf(a, "a", [], "pos"), Leaf(b, "b", [], "pos"), Leaf(n, "N", [], lambda g_, sh: np.asarray(25))],
                lambda i: ("beta", (y_("a"), y_("b"))), lambda i: ("binomial", (y_("N"),)), [3])
    bb("fixed size", b3)

    def b4(s):
        a, b = at.matrix("a"), at.vector("b")
        p = s.beta(a, b)
        Y = s.binomial(30, p)
        y = Y.type("y")
        return ({Y: y}, p, [Leaf(y, "y", ["m", "n"], "count"), Leaf(a, "a", ["m", "n"], "pos"), Leaf(b, "b", ["n"], "pos")],
                lambda i, j: ("beta", (y_("a", i, j), y_("b", j))), lambda i, j: ("binomial", (L(30),)), ["m", "n"])
    bb("matrix", b4)

    def b5(s):
        al = s.gamma(2.0, 1.5, name="al")
        p = s.beta(al, 2.0, size=(3,), name="p")
        Y = s.binomial(12, p)
        y = Y.type("y")
        ca = at.scalar("cal")
        return ({Y: y}, p, [Leaf(y, "y", [3], "count"), Leaf(ca, "cal", [], "pos")],
                lambda i: ("beta", (y_("cal"), L(2))), lambda i: ("binomial", (L(12),)), [3], {al: ca})
    bb("latent hyper-parameter", b5)

    # ---- beta / negative binomial
    def bn(name, mk):
        res.append(Case("bn", "beta-nbinom " + name, *mk(r())))

    def n1(s):
        p = s.beta(2.5, 1.5)
        Y = s.nbinom(6, p)
        y = Y.type("y")
        return {Y: y}, p, [Leaf(y, "y", [], "count")], lambda: ("beta", (L(2.5), L(1.5))), lambda: ("nbinom", (L(6),)), []
    bn("scalar", n1)

    def n2(s):
        a, b, n = at.vector("a"), at.vector("b"), at.lvector("N")
        p = s.beta(a, b)
        Y = s.nbinom(n, p)
        y = Y.type("y")
        return ({Y: y}, p, [Leaf(y, "y", ["n"], "count"), Leaf(a, "a", ["n"], "pos"), Leaf(b, "b", ["n"], "pos"), Leaf(n, "N", ["n"], lambda g_, sh: 5 + g_.poisson(3, size=sh))],
                lambda i: ("beta", (y_("a", i), y_("b", i))), lambda i: ("nbinom", (y_("N", i),)), ["n"])
    bn("vectors", n2)

    def n3(s):
        a, b, n = at.scalar("a"), at.vector("b"), at.lscalar("N")
        p = s.beta(a, b, size=(2, 3))
        Y = s.nbinom(n, p)
        y = Y.type("y")
        return ({Y: y}, p, [Leaf(y, "y", [2, 3], "count"), Leaf(a, "a", [], "pos"), Leaf(b, "b", [3], "pos"), Leaf(n, "N", [], lambda g_, sh: np.asarray(7))],
                lambda i, j: ("beta", (y_("a"), y_("b", j))), lambda i, j: ("nbinom", (y_("N"),)), [2, 3])
    bn("matrix", n3)
    return res


SIZES = [{"n": 3, "m": 2, "val:n": 3}, {"n": 1, "m": 1, "val:n": 3}, {"n": 5, "m": 3, "val:n": 3}]
used = {k: 0 for k in FUNC}


def closed_form(subj, c):
    """The single gamma/beta draw that is the step's result (None if it has another form)."""
    D, (o,), _ = subj.denote(())
    if len(D.draws) != 1:
        return None
    d = D.draws[0]
    idx = [f"i{k}" for k in range(len(o.dims))]
    if d.kind not in ("gamma", "beta") or o(*idx) != t.sym(d.name, *idx):
        return None
    return D, d, o


def spec(c, idx, x, swap=False):
    kind, p = c.prior(*idx)
    lk, lp = c.lik(*idx)
    y = t.sym("y", *idx)
    lik = lik_logp(lk, lp, x, y)
    if swap:  # the listed finding: the roles of y and n exchanged
        lik = y * t.log(x) + lp[0] * t.log(1 - x)
    return prior_logp(kind, p, x) + lik


def concrete_log_target(c, env, idx, x, swap=False):
    """Unnormalised log conditional at x from scipy densities (independent of the engine)."""
    from scipy import stats

    names = [f"i{k}" for k in range(len(idx))]
    at_ = dict(zip(names, idx))
    dims = {"n": 0, "m": 0}
    val = lambda e: t.neval(t.lift(e), env, dims, at_)  # noqa: E731
    kind, p = c.prior(*names)
    lk, lp = c.lik(*names)
    p, lp = [val(q) for q in p], [val(q) for q in lp]
    y = env["y"][tuple(idx)]
    if kind == "gamma":
        pr = stats.gamma.logpdf(x, p[0], scale=1 / p[1])
    else:
        pr = stats.beta.logpdf(x, *p)
    if lk == "poisson":
        ll = stats.poisson.logpmf(y, x)
    elif lk == "binomial":
        ll = stats.binom.logpmf(y, lp[0], x)
    elif swap:
        ll = stats.nbinom.logpmf(y, lp[0], 1 - x)
    else:
        ll = stats.nbinom.logpmf(y, lp[0], x)
    return pr + ll


def exact_params(c, env, idx, swap=False):
    names = [f"i{k}" for k in range(len(idx))]
    val = lambda e: t.neval(t.lift(e), env, {}, dict(zip(names, idx)))  # noqa: E731
    kind, p = c.prior(*names)
    lk, lp = c.lik(*names)
    p, lp = [val(q) for q in p], [val(q) for q in lp]
    y = float(env["y"][tuple(idx)])
    if lk == "poisson":
        return "gamma", p[0] + y, p[1] + 1
    if lk == "binomial":
        return "beta", p[0] + y, p[1] + lp[0] - y
    return ("beta", p[0] + y, p[1] + lp[0]) if swap else ("beta", p[0] + lp[0], p[1] + y)


KNOWN = "beta-nbinom-swapped"
for c in cases():
    f = FUNC[c.fam]
    sampler, init = build(c.obs, seed=5)
    from aemcmc.nuts import NUTSKernel

    if isinstance(sampler.sample_steps[c.rv].owner.op, NUTSKernel):
        check.skip(c.name, f, "the generic step is used for this model")
        continue
    used[c.fam] += 1
    ph = at.TensorType(c.rv.type.dtype, c.rv.type.shape)("cur")
    out = step_graph(sampler, init, c.rv, {**c.cut})
    subj = Subject(c.name, [out], c.leaves)

    def selfcheck():
        for k, dims in enumerate(SIZES):
            subj.selfcheck(dims, k)
        return "concrete evaluation"

    ok = check.ob(f"{c.name}: denotation agrees with the graph", f, selfcheck) == "discharged"

    def law():
        cf = closed_form(subj, c)
        if not ok or cf is None:
            raise Unsupported("the step is not a single gamma/beta draw")
        D, d, o = cf
        if [dim_expr(q) for q in o.dims] != [dim_expr(q) for q in c.ydims] or D.assumed_equal_dims:
            raise Unsupported(f"sizes {o.dims} {D.assumed_equal_dims}")
        idx = [f"i{k}" for k in range(len(o.dims))]
        x = t.sym("x")
        t.declare_positive("x")
        got = laws.logp(d.kind, [p(*idx) for p in d.params], x)

        def point(k):
            rng = np.random.default_rng(SEED * 77 + k)
            dims = SIZES[k % 3]
            env = subj.inputs(rng, dims)
            env["x"] = np.asarray(rng.uniform(0.1, 0.9))
            return env, dims, {f"i{q}": 0 for q in range(len(idx))}

        diff = laws.depends_on(got - spec(c, idx, x), {"x"})
        if diff.is_zero():
            return "normal-form"
        if c.fam == "bn" and laws.depends_on(got - spec(c, idx, x, swap=True), {"x"}).is_zero():
            raise Known(KNOWN, "log-density is that of Beta(alpha + y, beta + n)")
        # not identically zero: is it constant in x?
        x2 = t.sym("x2")
        t.declare_positive("x2")
        got2 = laws.logp(d.kind, [p(*idx) for p in d.params], x2)

        def point2(k):
            env, dims, i = point(k)
            env["x2"] = np.asarray(float(env["x"]) * 0.5)
            return env, dims, i

        return identity(got - got2, spec(c, idx, x) - spec(c, idx, x2), point2, f"{c.name}: log-density ratio of the step and of the conditional")

    check.ob(f"{c.name}: the law of the step is the full conditional", f, law)

    def indep():
        cf = closed_form(subj, c)
        if not ok or cf is None:
            raise Unsupported("the step is not a single gamma/beta draw")
        D, d, o = cf
        # one draw per element: the draw's own shape is the result's shape
        if [dim_expr(q) for q in d.dims] != [dim_expr(q) for q in c.ydims]:
            raise Unsupported(f"draw of shape {d.dims}")
        return "normal-form"

    check.ob(f"{c.name}: one independent draw per element", f, indep)

    def conc():
        n = 0
        known = False
        for k, (far, dims) in enumerate([(far, d) for far in (0,) * (4 if THOROUGH else 1) + (3, 6) for d in SIZES]):
            rng = np.random.default_rng(SEED * 1000 + k)
            env = subj.inputs(rng, dims, far)
            if far and c.fam == "bb":  # no more successes than trials
                for idx in np.ndindex(*env["y"].shape):
                    names = [f"i{q}" for q in range(len(idx))]
                    env["y"][idx] = min(env["y"][idx], t.neval(t.lift(c.lik(*names)[1][0]), env, {}, dict(zip(names, idx))))
            if len(subj.nodes) != 1 or subj.nodes[0].op.name not in ("gamma", "beta"):
                return 0, 0
            (sh,) = subj.draw_shapes(env)
            forced = rng.uniform(0.1, 0.9, size=sh)
            outs, params, _ = subj.run(env, [forced])
            if not np.array_equal(outs[0], forced):
                return 0, 0  # decided by the Monte-Carlo replay
            if np.shape(outs[0]) != env["y"].shape:
                raise Refuted(f"{c.name}: the step has shape {np.shape(outs[0])} instead of {env['y'].shape}", {"inputs": env})
            p = [np.broadcast_to(q, sh) for q in params[subj.nodes[0]]]
            from scipy import stats

            for idx in np.ndindex(*sh):
                if far:  # other orders of magnitude: the parameters themselves
                    kind, e = subj.nodes[0].op.name, exact_params(c, env, idx)
                    got = (kind, p[0][idx], 1 / p[1][idx] if kind == "gamma" else p[1][idx])
                    n += 1
                    if got[0] == e[0] and np.allclose(got[1:], e[1:], rtol=1e-6, atol=0):
                        continue
                    if c.fam == "bn" and got[0] == "beta" and np.allclose(got[1:], exact_params(c, env, idx, True)[1:], rtol=1e-6, atol=0):
                        known = True
                        continue
                    raise Refuted(f"{c.name}: drawn from {got} instead of {e}", {"inputs": env, "element": idx})
                xs = np.array([0.15, 0.4, 0.8])
                d = (stats.gamma.logpdf(xs, p[0][idx], scale=p[1][idx]) if subj.nodes[0].op.name == "gamma" else stats.beta.logpdf(xs, p[0][idx], p[1][idx]))
                tgt = np.array([concrete_log_target(c, env, idx, x) for x in xs])
                r = d - tgt
                n += 1
                if np.ptp(r) > 1e-6 * (1 + np.abs(d).max()):
                    if c.fam == "bn":
                        tgt = np.array([concrete_log_target(c, env, idx, x, True) for x in xs])
                        if np.ptp(d - tgt) <= 1e-6 * (1 + np.abs(d).max()):
                            known = True
                            continue
                    raise Refuted(f"{c.name}: drawn from {subj.nodes[0].op.name}{tuple(float(q[idx]) for q in p)}, which is not the conditional (expected {exact_params(c, env, idx)})",
                                  {"inputs": env, "element": idx})
        if known:
            raise Known(KNOWN, "concrete log-density is that of Beta(alpha + y, beta + n)")
        return n, n

    check.replay(f"{c.name}: parameters of the draw", f, conc)

    def mc():
        from scipy import stats

        N = 1500 if not THOROUGH else 20000
        dims = SIZES[0]
        rng = np.random.default_rng(SEED * 17)
        env = subj.inputs(rng, dims)
        fn = subj.drawer(1)
        xs = np.array([fn(*[env[l.name] for l in c.leaves])[0] for _ in range(N)])
        if xs.shape[1:] != env["y"].shape:
            raise Refuted(f"{c.name}: the step has shape {xs.shape[1:]}", {"inputs": env})
        U = []
        known = False
        for idx in np.ndindex(*env["y"].shape):
            col = xs[(slice(None),) + tuple(idx)]
            for swap in ((False, True) if c.fam == "bn" else (False,)):
                kind, a, b = exact_params(c, env, idx, swap)
                dist = stats.gamma(a, scale=1 / b) if kind == "gamma" else stats.beta(a, b)
                pv = stats.kstest(col, dist.cdf).pvalue
                if pv > 1e-8:
                    known |= swap
                    U.append(stats.norm.ppf(np.clip(dist.cdf(col), 1e-12, 1 - 1e-12)))
                    break
            else:
                raise Refuted(f"{c.name}: draws of element {idx} do not follow the conditional (KS p-value {pv})", {"inputs": env, "element": idx})
        U = np.array(U)
        Z = np.vstack([U[:, 1:], U[:, :-1]])
        C = np.corrcoef(Z) - np.eye(len(Z))
        if np.abs(C).max() > 6.5 / np.sqrt(N):
            raise Refuted(f"{c.name}: draws are correlated across elements or calls ({np.abs(C).max():.3f})", {"inputs": env})
        if known:
            raise Known(KNOWN, "draws follow Beta(alpha + y, beta + n)")
        return N, len(U)

    if THOROUGH or c.name.split()[-1] in ("scalar", "vectors", "matrix", "hyper-parameters", "size"):
        check.replay(f"{c.name}: Monte-Carlo law", f, mc)


def cover():
    missing = [k for k, n in used.items() if n == 0]
    if missing:
        raise Unsupported(f"no closed-form step was built for {missing}")
    return "reachability"


check.ob("every conjugate family is reached", "aemcmc.basic.construct_sampler", cover)


def densities():
    """The density contracts agree with scipy."""
    from scipy import stats

    rng = np.random.default_rng(SEED)
    n = 0
    x, y = t.sym("x"), t.sym("yy")
    a, b, N = t.sym("ca"), t.sym("cb"), t.sym("cn")
    for _ in range(5):
        e = {"ca": rng.uniform(.5, 3), "cb": rng.uniform(.5, 3), "cn": float(rng.integers(5, 9)), "yy": float(rng.integers(0, 5))}
        for kind, p, dist in (("gamma", (a, b), lambda q: stats.gamma.logpdf(q, e["ca"], scale=e["cb"])),
                              ("beta", (a, b), lambda q: stats.beta.logpdf(q, e["ca"], e["cb"]))):
            v = [t.neval(laws.logp(kind, p, x), {**e, "x": q}, {}) - dist(q) for q in (.2, .5, .8)]
            if np.ptp(v) > 1e-9:
                raise Refuted(f"density contract of {kind}")
            n += 1
        for kind, p, dist in (("poisson", (), lambda q: stats.poisson.logpmf(e["yy"], q)),
                              ("binomial", (N,), lambda q: stats.binom.logpmf(e["yy"], e["cn"], q)),
                              ("nbinom", (N,), lambda q: stats.nbinom.logpmf(e["yy"], e["cn"], q))):
            v = [t.neval(lik_logp(kind, p, x, y), {**e, "x": q}, {}) - dist(q) for q in (.2, .5, .8)]
            if np.ptp(v) > 1e-9:
                raise Refuted(f"density contract of {kind}")
            n += 1
    return n, n


check.replay("density contracts agree with scipy", "aevc.laws", densities)
# what the patterns match: the hypotheses of the chosen steps, per model structure
fitting.family(check, ("conjugate",))
sys.exit(check.finish())
