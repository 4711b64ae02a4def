"""C05: the logistic regression steps leave the coefficient posterior invariant."""
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream
from fractions import Fraction as Fr
from scipy import stats

from aevc import fitting, hypotheses as H, laws, terms as t
from aevc.denote import dim_expr
from aevc.gauss import GaussianContract
from aevc.steps import build, step_graph
from aevc.subject import Leaf, Subject, identity
from aevc.terms import Unsupported

import aemcmc.gibbs as AG
from aemcmc.dists import polyagamma

check = Check("C05", "proof")
check.assumptions += [
    "real arithmetic in the obligations (replays run in float64)",
    "Polya-Gamma identity (Polson, Scott & Windle 2013, Theorem 1; not machine-checked): exp(a psi) / (1 + exp(psi))^b = 2^-b exp((a - b/2) psi) E[exp(-w psi^2 / 2)] for w ~ PG(b, 0), and w | psi ~ PG(b, psi)",
    "lemma (not machine-checked): drawing w | beta and then beta | w leaves the law of beta invariant",
    "prior standard deviations and the dispersion are positive; sizes n, p >= 1",
]
check.trusted += [
    "the op contracts in aevc/denote.py (cross-checked at random points in every run)",
    "the polyagamma package draws PG(b, c) (its Laplace transform is sampled in every run)",
    "aevc/terms.py normal-form engine; z3",
]
HALF = Fr(1, 2)
X_ = lambda i, j: t.sym("X", i, j)  # noqa: E731


def link_contract():
    """The two likelihoods in the form a * psi - b * log(1 + exp(psi))."""
    E, y, h = t.sym("E"), t.sym("yy"), t.sym("hh")
    t.declare_positive("E")  # E = exp(psi)
    psi, soft = t.log(E), t.log(1 + E)
    p = E / (1 + E)
    q = 1 / (1 + E)
    d1 = y * (t.log(E) - soft) + (1 - y) * (-soft) - (y * psi - soft)
    d2 = (h * (-soft) + y * (t.log(E) - soft)) - (y * psi - (y + h) * soft)
    if not (d1.is_zero() and d2.is_zero()):
        raise Unsupported("link form")
    if not ((p + q) - 1).is_zero() and not t.together(p + q - 1)[0].is_zero():
        raise Unsupported("link form")
    return "normal-form"


check.ob("likelihoods have the Polya-Gamma form", "aevc: lemma", link_contract)


class Case:
    """sgn: psi = sgn * X beta, with the likelihood a psi - B log(1 + exp psi)."""

    def __init__(self, name, func, out, leaves, n, p, sgn, a, B, std, nB, stdv, sizes, mc=None, free=None):
        self.name, self.func, self.n, self.p = name, func, n, p
        self.sgn, self.a, self.B, self.std = sgn, a, B, std
        self.nB, self.stdv, self.sizes = nB, stdv, sizes
        self.subj = Subject(name, [out], leaves)
        self.subj.floors = {"h": 1e-3}  # the `polyagamma` package rejects shapes below 1e-4

    def Lam(self, i, j):
        D = self.subj.denote((0,) * len(self.subj.ifelse), standardise=True)[0]
        (w,) = [d for d in D.draws if d.kind == "polyagamma"]
        return t.sum_over(X_("q0", i) * t.sym(w.name, "q0") * X_("q0", j), "q0", self.n) + t.delta(i, j) * t.power(self.std(i), -2)

    def b(self, i):
        return t.sum_over(X_("q0", i) * self.sgn * (self.a("q0") - self.B("q0") * HALF), "q0", self.n)

    def numeric(self, env, forced, dims):
        (nd,) = [n for n in forced if n.op.name == "polyagamma"]
        w = np.asarray(forced[nd])
        X, s = env["X"], np.broadcast_to(self.stdv(env), env["X"].shape[1])
        return X.T @ (w[:, None] * X) + np.diag(s ** -2.0), self.sgn * X.T @ (env["y"] - self.nB(env) / 2)

    def run(self):
        s, f = self.subj, self.func
        pgs = [n for n in s.nodes if n.op.name == "polyagamma"]
        G = GaussianContract(check, s, f, self.Lam, self.b, self.p, self.sizes, self.numeric)
        G.obligations()

        def weights(what):
            def go():
                D, _, _ = s.denote((0,) * len(s.ifelse), standardise=True)
                ws = [d for d in D.draws if d.kind == "polyagamma"]
                if len(ws) != 1:
                    raise Unsupported("not a single Polya-Gamma draw")
                (w,) = ws
                if [dim_expr(q) for q in w.dims] != [dim_expr(self.n)]:
                    raise Unsupported(f"weights of shape {w.dims}")
                b_, c = w.params
                if what == "shape":
                    return identity(b_("i"), self.B("i"), G.point(D), "Polya-Gamma shape")
                psi = t.sum_over(X_("i", "q1") * t.sym("beta", "q1"), "q1", self.p)
                return identity(c("i") * c("i"), psi * psi, G.point(D), "squared Polya-Gamma tilt")
            return go

        check.ob(f"{s.name}: weights have the likelihood's shape, one per observation", f, weights("shape"))
        check.ob(f"{s.name}: weights are tilted by the current coefficients", f, weights("tilt"))

        def conc():
            if len(pgs) != 1:
                return 0, 0
            n = G.concrete(self.sizes, 2)[0]
            rng = np.random.default_rng(SEED)
            for dims, far in [(d, w) for w in (0, 2, 4) for d in self.sizes]:
                env = s.inputs(rng, dims, far)
                forced = [np.full(sh, 0.5) for sh in s.draw_shapes(env)]
                _, params, _ = s.run(env, forced)
                b_, c = params[pgs[0]]
                sh = (len(env["y"]),)
                if forced[s.nodes.index(pgs[0])].shape != sh:
                    raise Refuted(f"{s.name}: weights of shape {forced[s.nodes.index(pgs[0])].shape}", {"inputs": env})
                if not np.allclose(np.broadcast_to(b_, sh), self.nB(env)):
                    raise Refuted(f"{s.name}: Polya-Gamma shape {b_} instead of {self.nB(env)}", {"inputs": env})
                if not np.allclose(np.abs(np.broadcast_to(c, sh)), np.abs(env["X"] @ env["beta"])):
                    raise Refuted(f"{s.name}: Polya-Gamma tilt {c} instead of {env['X'] @ env['beta']}", {"inputs": env})
                n += 2
            return n, n

        check.replay(f"{s.name}: forced draws", f, conc)


ys = lambda i: t.sym("y", i)  # noqa: E731
one = lambda *i: t.lift(1)  # noqa: E731
SZ = [dict(n=3, p=2), dict(n=2, p=3), dict(n=1, p=1), dict(n=2, p=2), dict(n=4, p=1), dict(n=1, p=4)]

cases = []
be, X, y = at.vector("beta"), at.matrix("X"), at.vector("y")
FB, FN = "aemcmc.gibbs.bern_normal_posterior", "aemcmc.gibbs.nbinom_normal_posterior"
for scal in (False, True):
    sd = at.scalar("sd") if scal else at.vector("sd")
    stdf = (lambda i: t.sym("sd")) if scal else (lambda i: t.sym("sd", i))
    lv = [Leaf(be, "beta", ["p"]), Leaf(sd, "sd", [] if scal else ["p"], "pos"), Leaf(X, "X", ["n", "p"])]
    tag = "scalar" if scal else "vector"
    cases.append(Case(f"bern_normal_posterior, {tag} std", FB, AG.bern_normal_posterior(RandomStream(1), be, sd, X, y),
                      lv + [Leaf(y, "y", ["n"], "binary")], "n", "p", 1, ys, one, stdf, lambda e: np.ones(len(e["y"])), lambda e: e["sd"], SZ))
    h = at.scalar("h") if scal else at.vector("h")
    cases.append(Case(f"nbinom_normal_posterior, {tag} std, {tag} dispersion", FN, AG.nbinom_normal_posterior(RandomStream(2), be, sd, X, h, y),
                      lv + [Leaf(y, "y", ["n"], "count"), Leaf(h, "h", [] if scal else ["n"], "pos")], "n", "p", -1 * -1, ys,
                      (lambda i: t.sym("y", i) + t.sym("h")) if scal else (lambda i: t.sym("y", i) + t.sym("h", i)), stdf,
                      lambda e: e["y"] + e["h"], lambda e: e["sd"], SZ))


# ------------------------------------------------------------------ steps in built samplers
def sampler_cases():
    for fam in ("bern", "nbinom"):
        for kind in ("const", "vector", "scalar", "latent", "horseshoe", "neg", "dot"):
            s = RandomStream(21)
            Xm = at.matrix("X")
            lv, cut = [], {}
            P = "p"
            size = Xm.shape[1]
            if kind in ("const", "neg", "dot"):
                beta = s.normal(0, 0.5 if fam == "bern" else 2, size=size, name="beta")
                std = lambda i, fam=fam: t.lift(0.5 if fam == "bern" else 2)  # noqa: E731
                stdv = lambda e, fam=fam: 0.5 if fam == "bern" else 2.0  # noqa: E731
            elif kind == "vector":
                sd = at.vector("sd")
                beta = s.normal(0, sd, name="beta")
                lv.append(Leaf(sd, "sd", ["p"], "pos"))
                std, stdv = (lambda i: t.sym("sd", i)), (lambda e: e["sd"])
            elif kind == "scalar":
                sd = at.scalar("sd")
                beta = s.normal(0.0, sd, size=size, name="beta")
                lv.append(Leaf(sd, "sd", [], "pos"))
                std, stdv = (lambda i: t.sym("sd")), (lambda e: e["sd"])
            elif kind == "latent":
                g_ = s.gamma(2.0, 1.0, name="g")
                beta = s.normal(0, g_, size=size, name="beta")
                cg = at.scalar("cg")
                cut[g_] = cg
                lv.append(Leaf(cg, "cg", [], "pos"))
                std, stdv = (lambda i: t.sym("cg")), (lambda e: e["cg"])
            else:
                tau = s.halfcauchy(0, 1, name="tau")
                lam = s.halfcauchy(0, 1, size=size, name="lam")
                beta = s.normal(0, lam * tau, size=size, name="beta")
                cl, ct = at.vector("cl"), at.scalar("ct")
                cut[lam], cut[tau] = cl, ct
                lv += [Leaf(cl, "cl", ["p"], "pos"), Leaf(ct, "ct", [], "pos")]
                std, stdv = (lambda i: t.sym("cl", i) * t.sym("ct")), (lambda e: e["cl"] * e["ct"])
            pr = {"neg": lambda: at.sigmoid(-1.0 * (Xm @ beta)), "dot": lambda: 1 / (1 + at.exp(at.dot(Xm, beta)))}.get(kind, lambda: at.sigmoid(-(Xm @ beta)))()
            if fam == "bern":
                Y = s.bernoulli(pr, name="Y")
                a, B, nB, sg = ys, one, (lambda e: np.ones(len(e["y"]))), -1
            else:
                if kind == "const":
                    hh = 3
                    hx, hv = t.lift(3), (lambda e: 3.0)
                elif kind == "horseshoe":
                    hh = s.gamma(2.0, 1.0, name="h")
                    ch = at.scalar("ch")
                    cut[hh] = ch
                    lv.append(Leaf(ch, "ch", [], "pos"))
                    hx, hv = t.sym("ch"), (lambda e: e["ch"])
                else:
                    hh = at.scalar("h")
                    lv.append(Leaf(hh, "h", [], "pos"))
                    hx, hv = t.sym("h"), (lambda e: e["h"])
                Y = s.nbinom(hh, pr, name="Y")
                a, sg = ys, 1
                B = lambda i, hx=hx: t.sym("y", i) + hx  # noqa: E731
                nB = lambda e, hv=hv: e["y"] + hv(e)  # noqa: E731
            yv = Y.type("y")
            cb = at.vector("cbeta")
            lv += [Leaf(cb, "beta", ["p"]), Leaf(Xm, "X", ["n", "p"]), Leaf(yv, "y", ["n"], "binary" if fam == "bern" else "count")]
            cut[beta] = cb
            yield fam, kind, {Y: yv}, beta, lv, cut, P, sg, a, B, std, nB, stdv


built = {"bern": 0, "nbinom": 0}
FS = {"bern": "aemcmc.gibbs.bern_logistic_finder", "nbinom": "aemcmc.gibbs.nbinom_logistic_finder"}
for fam, kind, obs, beta, lv, cut, P, sg, a, B, std, nB, stdv in sampler_cases():
    sampler, init = build(obs, seed=4)
    op = sampler.sample_steps[beta].owner.op
    if "NUTS" in type(op).__name__:
        check.skip(f"{fam} sampler, {kind}", FS[fam], "the generic step is used for this model")
        continue
    out = step_graph(sampler, init, beta, cut)
    c = Case(f"{fam} sampler, {kind} prior", FS[fam], out, lv, "n", P, sg, a, B, std, nB, stdv, SZ[:4])
    built[fam] += 1
    cases.append(c)
for c in cases:
    c.run()


def cover():
    if not all(built.values()):
        raise Unsupported(f"steps built: {built}")
    return "reachability"


check.ob("both regression steps are reached from construct_sampler", "aemcmc.basic.construct_sampler", cover)


# ------------------------------------------------------------------ the Polya-Gamma op
def pg():
    rng = np.random.default_rng(SEED)
    N = 200000 if THOROUGH else 40000
    b, c = at.scalar("b"), at.scalar("c")
    st = RandomStream(SEED)
    out = st.gen(polyagamma, b, c, size=(N,))
    fn = aesara.function([b, c], out, updates=st.updates())
    n = 0
    pts = [(1.0, 0.0), (1.0, 2.0), (1.0, -3.0), (2.5, 1.0), (7.0, -0.5), (0.4, 1.5), (30.0, 2.0)]
    for bv, cv in pts:
        x = fn(bv, cv)
        x2 = fn(bv, cv)
        if x.dtype != aesara.config.floatX or np.array_equal(x, x2):
            raise Refuted(f"PG({bv}, {cv}): dtype {x.dtype} or repeated draws", {"b": bv, "c": cv})
        for tt in (0.5, 2.0, 8.0):
            want = (np.cosh(cv / 2) / np.cosh(np.sqrt(cv**2 / 4 + tt / 2))) ** bv
            v = np.exp(-tt * x)
            z = (v.mean() - want) / (v.std() / np.sqrt(N))
            n += 1
            if abs(z) > 6.5:
                raise Refuted(f"PG({bv}, {cv}): Laplace transform at {tt} is {v.mean()} instead of {want}", {"b": bv, "c": cv})
    # far points: exact mean and variance
    for bv, cv in [(1.0, 60.0), (1.0, -200.0), (2.5, 35.0), (1.0, 15.0), (500.0, 3.0), (4000.0, 0.5), (0.02, 0.5), (0.3, 50.0), (300.0, 100.0)]:
        x = fn(bv, cv)
        q = abs(cv)
        mean = bv / (2 * q) * np.tanh(q / 2)
        e = np.exp(-q)
        var = bv / (4 * q**3) * 2 * (1 - e * e - 2 * q * e) / (1 + e) ** 2
        z = (x.mean() - mean) / np.sqrt(var / N)
        kurt = ((x - mean) ** 2).std() / np.sqrt(N)
        z2 = (((x - mean) ** 2).mean() - var) / kurt
        n += 2
        if not (abs(z) < 7 and abs(z2) < 8):
            raise Refuted(f"PG({bv}, {cv}): mean {x.mean()} and variance {x.var()} instead of {mean} and {var}", {"b": bv, "c": cv})
    # vectors of parameters: element-wise
    bb, cc = at.vector("bb"), at.vector("cc")
    st = RandomStream(SEED)
    f2 = aesara.function([bb, cc], st.gen(polyagamma, bb, cc), updates=st.updates())
    bv, cv = np.array([1.0, 2.0, 9.0, 3.5]), np.array([0.0, 4.0, -1.0, 2.0])
    xs = np.array([f2(bv, cv) for _ in range(4000)])
    m = np.where(cv == 0, bv / 4, bv / (2 * np.where(cv == 0, 1, cv)) * np.tanh(cv / 2))
    z = (xs.mean(0) - m) / (xs.std(0) / np.sqrt(len(xs)))
    if np.abs(z).max() > 6.5:
        raise Refuted(f"PG with vector parameters: means {xs.mean(0)} instead of {m}", {"b": bv, "c": cv})
    return n + 4, n + 4


check.replay("Polya-Gamma op: Laplace transform", "aemcmc.dists.PolyaGammaRV.rng_fn", pg)


# ------------------------------------------------------------------ Monte-Carlo invariance
def geweke(c, fam, n, p, N):
    rng = np.random.default_rng([SEED, 5])
    fn = c.subj.drawer(7)
    env = c.subj.inputs(rng, dict(n=n, p=p))
    sd = np.broadcast_to(c.stdv(env), p)
    R, Q, W = np.empty((N, p)), np.empty((N, n)), np.empty((N, n))
    names = [l.name for l in c.subj.leaves]
    yd = [l.var.type.dtype for l in c.subj.leaves if l.name == "y"][0]
    for k in range(N):
        beta = rng.normal(size=p) * sd
        eta = c.sgn * (env["X"] @ beta)
        if fam == "bern":
            yv = rng.binomial(1, 1 / (1 + np.exp(-eta)))
        else:
            hv = c.nB({**env, "y": np.zeros(n)})
            yv = rng.negative_binomial(hv, 1 / (1 + np.exp(eta)))
        e = {**env, "beta": beta, "y": yv.astype(yd)}
        (b1,) = fn(*[e[x] for x in names])
        R[k] = b1
        yc = yv if fam == "bern" else np.log1p(yv)
        Q[k] = yc * (env["X"] @ b1)
        W[k] = yc * (env["X"] @ beta)
    wit = {"inputs": {k: v for k, v in env.items() if k not in ("y", "beta")}, "N": N}
    for j in range(p):
        pv = stats.kstest(R[:, j] / sd[j], "norm").pvalue
        if not pv > 1e-8:
            raise Refuted(f"{c.name}: after one step from stationarity coefficient {j} does not have its prior law (p={pv:.1e})", wit)
    C = np.corrcoef((R / sd).T) - np.eye(p)
    if p > 1 and np.abs(C).max() > 6.5 / np.sqrt(N):
        raise Refuted(f"{c.name}: coefficients are correlated after one step from stationarity", wit)
    d = Q - W
    z = d.mean(0) / (d.std(0) / np.sqrt(N))
    if np.abs(z).max() > 6.5:
        raise Refuted(f"{c.name}: E[y x'beta] changes under one step from stationarity (z={z})", wit)
    return N, N


N = 30000 if THOROUGH else 4000
mcs = {}
for c in cases:
    fam = "bern" if "bern" in c.name else "nbinom"
    k = (fam, c.func)
    if k in mcs and not THOROUGH:
        continue
    mcs[k] = 1
    for n_, p_ in ((4, 2), (2, 3)):
        check.replay(f"{c.name}: one step from stationarity, n={n_}, p={p_}", c.func, lambda c=c, fam=fam, n_=n_, p_=p_: geweke(c, fam, n_, p_, N))
# what the patterns match: the hypotheses of the chosen steps, per model structure
fitting.family(check, ("regression",), kinds=(H.NBREG, H.BERNREG))
sys.exit(check.finish())
