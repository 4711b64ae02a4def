"""C06: table counts and dispersion updates follow their stated laws."""
import math
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
import z3
from aesara.tensor.random import RandomStream
from scipy import stats
from scipy.special import gammaln

from aevc import fitting, hypotheses as H, laws, smt, terms as t
from aevc.denote import Denoter, T, dim_expr, expr_dim, leaf
from aevc.scanview import Loop, scan_nodes
from aevc.steps import build, step_graph
from aevc.subject import Leaf, Subject, generate, identity, magnify  # noqa: F401
from aevc import graph as g
from aevc.terms import Unsupported

import aemcmc.gibbs as AG

check = Check("C06", "proof")
check.assumptions += [
    "real arithmetic in the obligations (replays run in float64)",
    "counts are non-negative integers, the concentration is positive",
    "Augmentation identity (Zhou & Carin 2012; compared numerically in every run): Gamma(h + y) / Gamma(h) = sum_l |s(y, l)| h^l, and l | y, h is the sum over n = 1..y of independent Bernoulli(h / (n - 1 + h)) variables",
]
check.trusted += [
    "the op contracts in aevc/denote.py; a Scan runs its body once per element of its sequence",
    "Aesara's Bernoulli and gamma ops draw from the distribution of their parameters",
    "aevc/terms.py normal-form engine; z3",
]
FC, FD, FS = "aemcmc.gibbs.sample_CRT", "aemcmc.gibbs.nbinom_dispersion_posterior", "aemcmc.gibbs.nbinom_logistic_finder"


# ------------------------------------------------------------------ the loop contract of the CRT sampler
def decide(cond, zero):
    """Truth of a comparison of the count with constants, for a count of zero or a positive one."""
    if len(cond.terms) != 1:
        return None
    (m, c), = cond.terms.items()
    if c != 1 or m[1] or len(m[0]) != 1 or m[0][0][1] != 1 or m[0][0][0][0] != "f":
        return None
    a = m[0][0][0]
    if a[1] not in ("lt", "le", "gt", "ge", "eq", "neq") or len(a[2]) != 2:
        return None
    enc = smt.Enc(ints=True)
    try:
        x, y = enc.expr(a[2][0]), enc.expr(a[2][1])
        k = enc.expr(t.sym("yi"))
    except Unsupported:
        return None
    f = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "neq": x != y}[a[1]]
    hyp = [k == 0] if zero else [k >= 1]
    try:
        if smt.prove(f, hyp)[0]:
            return True
        if smt.prove(z3.Not(f), hyp)[0]:
            return False
    except Unsupported:
        pass
    return None


def crt_body(loop):
    """The body of the loop maps a count to the CRT law; returns the outer concentration."""
    if len(loop.seqs) != 1 or loop.states or len(loop.maps) != 1:
        raise Unsupported("loop of another form")
    loop.check_generators()
    (_, yin), (out, _) = loop.seqs[0], loop.maps[0]
    t.declare_positive("hc")
    hs = [(o, i) for o, i in loop.nonseqs]
    if len(hs) != 1:
        raise Unsupported("the loop has other inputs")

    def den(zero):
        D = Denoter({yin: leaf("yi", []), hs[0][1]: leaf("hc", []), **{i: None for _, i, _, _ in loop.shared}},
                    facts=lambda c: decide(c, zero))
        return D, D.tensor(out)()

    D0, e0 = den(True)
    if not e0.is_zero():
        raise Unsupported(f"a count of zero gives {t.show(e0)}")
    D, e = den(False)
    if len(D.draws) != 1:
        raise Unsupported("not one block of draws")
    d = D.draws[0]
    if d.kind != "bernoulli" or len(d.dims) != 1:
        raise Unsupported(f"{d.kind} draws of dimension {d.dims}")
    y, h = t.sym("yi"), t.sym("hc")
    for c, s, K in ((1, 2, y - 1), (0, 1, y)):
        want = t.lift(c) + t.sum_over(t.sym(d.name, "k"), "k", d.dims[0])
        if not (e - want).is_zero():
            continue
        n = dim_expr(d.dims[0])
        # sizes are symbols val:yi (the count itself)
        nn = t.Expr({m: v for m, v in n.terms.items()})
        if str(t.show(nn)).replace("dim:val:yi", "yi") != t.show(K):
            continue
        k = t.sym("#", "k")
        q = d.params[0]("k")
        w = h / (k + (s - 1) + h)
        if smt.equal(q, w):
            return hs[0][0]
    raise Unsupported(f"body {t.show(e)[:200]} with probabilities {t.show(d.params[0]('k'))}")


class Tables:
    """Scan handler: a verified CRT loop denotes fresh symbols L with law CRT(y, h)."""

    def __init__(self):
        self.found = []

    def __call__(self, D, node, ins):
        loop = Loop(node)
        h = crt_body(loop)
        by = dict(zip(node.inputs, ins))
        seq = by[loop.seqs[0][0]]
        n = by[loop.n_steps]()
        if not (n - dim_expr(seq.dims[0])).is_zero():
            raise Unsupported(f"loop of {t.show(n)} steps")
        nm = f"L{len(self.found)}"
        src = getattr(seq, "ravel_of", None)
        r = T(seq.dims, lambda i: t.sym(nm, i))
        if src is not None:
            r.ravel_of = src
            r.unravel = lambda: T(src.dims, lambda *i: t.sym(nm, *i))
        self.found.append((nm, seq, src, by[h], node))
        outs = [None] * len(node.outputs)
        outs[node.outputs.index(loop.maps[0][1])] = r
        return outs


# ------------------------------------------------------------------ the function
def crt_case(nd):
    y = at.TensorType("int64", (None,) * nd)("y")
    h = at.scalar("h")
    out, ups = AG.sample_CRT(RandomStream(5), y, h)
    return y, h, out, ups


for nd in (0, 1, 2, 3):
    y, h, out, ups = crt_case(nd)
    dims = [f"m{k}" for k in range(nd)]

    def law():
        (o,) = g.flatten([out])
        D = Denoter({y: leaf("y", dims), h: leaf("h", [])})
        D.scan_handler = tb = Tables()
        r = D.tensor(o)
        if len(tb.found) != 1:
            raise Unsupported("no single loop")
        nm, seq, src, hh, _ = tb.found[0]
        if not (hh() - t.sym("h")).is_zero():
            raise Unsupported("concentration")
        idx = [f"i{k}" for k in range(nd)]
        ysrc = src if src is not None else seq
        if nd == 0:
            if [dim_expr(q) for q in ysrc.dims] != [t.lift(1)] or not (ysrc(t.ix(None, 0)) - t.sym("y")).is_zero():
                raise Unsupported("sequence")
            if r.dims or not (r() - t.sym(nm, t.ix(None, 0))).is_zero():
                raise Unsupported(f"result {r.dims}")
            return "normal-form+z3"
        if not (ysrc(*idx) - t.sym("y", *idx)).is_zero():
            raise Unsupported("sequence")
        if r.dims != dims or not (r(*idx) - t.sym(nm, *idx)).is_zero():
            raise Unsupported(f"result {r.dims} {t.show(r(*idx))}")
        return "normal-form+z3"

    check.ob(f"CRT, {nd}-dimensional counts: each element has its own count's law, in place", FC, law)

    def gens():
        (o,) = g.flatten([out])
        (n,) = scan_nodes([o])
        return Loop(n).check_generators()

    check.ob(f"CRT, {nd}-dimensional counts: fresh draws in every iteration", FC, gens)


# ------------------------------------------------------------------ CRT replays
def crt_pmf(n, h):
    c = np.zeros(n + 1)
    c[0] = 1.0
    for k in range(n):
        q = h / (k + h)
        c2 = c * (1 - q)
        c2[1:] += c[:-1] * q
        c = c2
    return c


def crt_mc(shape, hv, N, seed):
    y, h, out, ups = crt_case(len(shape))
    fn = aesara.function([y, h], out, updates=ups)
    rng = np.random.default_rng([SEED, seed])
    yv = np.asarray(rng.integers(0, 7, size=shape))
    if yv.ndim:
        yv.ravel()[0] = 0
        yv.ravel()[-1] = 5
    xs = np.array([fn(yv, hv) for _ in range(N)])
    wit = {"y": yv, "h": hv}
    if xs.shape[1:] != tuple(shape) or xs.dtype.kind not in "iu":
        raise Refuted(f"sample_CRT: result of shape {xs.shape[1:]} and type {xs.dtype}", wit)
    cols = []
    for idx in np.ndindex(*shape):
        n = int(yv[idx])
        col = xs[(slice(None),) + idx]
        if col.min() < 0 or col.max() > n or (n > 0 and col.min() < 1):
            raise Refuted(f"sample_CRT: {col.min()}..{col.max()} tables for {n} customers", wit)
        p = crt_pmf(n, hv)
        obs = np.bincount(col, minlength=n + 1)
        keep = p * N >= 5
        if keep.sum() > 1:
            o, e = np.append(obs[keep], obs[~keep].sum()), np.append(p[keep], p[~keep].sum()) * N
            m = e > 0.5
            st = ((o[m] - e[m]) ** 2 / e[m]).sum()
            if stats.chi2.sf(st, m.sum() - 1) < 1e-8:
                raise Refuted(f"sample_CRT: table counts for {n} customers have frequencies {obs / N} instead of {p}", wit)
            cols.append(col)
    if cols:
        U = np.array(cols, dtype=float)
        Z = np.vstack([U[:, 1:], U[:, :-1]])
        C = np.corrcoef(Z) - np.eye(len(Z))
        if np.abs(C).max() > 6.5 / np.sqrt(N):
            raise Refuted(f"sample_CRT: correlated across elements or calls ({np.abs(C).max():.3f})", wit)
    return N, yv.size


N = 12000 if THOROUGH else 1500
for k, (shape, hv) in enumerate([((), 0.7), ((4,), 2.5), ((2, 3), 1.0), ((2, 2, 2), 0.3), ((3,), 20.0), ((1, 2), 0.05)]):
    check.replay(f"CRT frequencies, shape {shape}, h={hv}", FC, lambda shape=shape, hv=hv, k=k: crt_mc(shape, hv, N, k))


def big():
    y, h, out, ups = crt_case(1)
    fn = aesara.function([y, h], out, updates=ups)
    n = 0
    for hv in (0.01, 1.0, 50.0, 3000.0, 1e-8, 1e8):
        yv = np.array([0, 1, 2, 40, 1000, 70000])
        x = np.array([fn(yv, hv) for _ in range(40)])
        if (x[:, 0] != 0).any() or (x[:, 1] != 1).any() or (x > yv).any() or (x[:, 1:] < 1).any():
            raise Refuted("sample_CRT: impossible table counts", {"y": yv, "h": hv, "draws": x})
        for c in (3, 4, 5):
            q = hv / (np.arange(yv[c]) + hv)
            # the rare events of a tiny variance are not normal
            z = (x[:, c].sum() - 40 * q.sum()) / (np.sqrt(40 * (q * (1 - q)).sum()) + 1)
            if abs(z) > 7:
                raise Refuted(f"sample_CRT: mean number of tables of {yv[c]} customers {x[:, c].mean()} instead of {q.sum()}", {"h": hv})
        n += 5
    # an empty array of counts
    if fn(np.zeros(0, "int64"), 1.0).shape != (0,):
        raise Refuted("sample_CRT: empty counts", {"y": []})
    return n, n


check.replay("CRT extreme counts", FC, big)


def stirling():
    """The augmentation identity at a grid of points."""
    n = 0
    for y in range(0, 9):
        for h in (0.2, 1.0, 3.5):
            c = np.zeros(y + 1)
            c[0] = 1.0
            for k in range(y):  # unsigned Stirling numbers of the first kind
                c2 = c * k
                c2[1:] += c[:-1]
                c = c2
            lhs = gammaln(h + y) - gammaln(h)
            s = sum(c[l] * h**l for l in range(y + 1))
            if abs(lhs - math.log(s)) > 1e-9:
                raise Refuted("augmentation identity")
            p = crt_pmf(y, h)
            if not np.allclose(p, [c[l] * h**l / s for l in range(y + 1)]):
                raise Refuted("CRT law")
            n += 1
    return n, n


check.replay("augmentation identity on a grid", "aevc: lemma", stirling)

# ------------------------------------------------------------------ the dispersion update
KNOWN = "dispersion-log1mp"


class Disp:
    """shape0/rate: prior in user terms (expressions), p(i): success probabilities."""

    def __init__(self, name, func, out, leaves, shape0, rate, p, h, n="n", numeric=None):
        self.name, self.func, self.leaves = name, func, leaves
        self.shape0, self.rate, self.p, self.h, self.n, self.numeric = shape0, rate, p, h, n, numeric
        (self.out,) = g.flatten([out])

    def denote(self):
        t.declare_positive(*[l.name for l in self.leaves if l.gen == "pos"])
        D = Denoter({l.var: leaf(l.name, l.dims) for l in self.leaves})
        D.scan_handler = tb = Tables()
        o = D.tensor(self.out)
        return D, o, tb

    def run(self):
        f = self.func

        def law():
            D, o, tb = self.denote()
            if len(tb.found) != 1 or len(D.draws) != 1 or D.draws[0].kind != "gamma" or o.dims:
                raise Unsupported("not a single gamma draw given table counts")
            d = D.draws[0]
            if not (o() - t.sym(d.name)).is_zero() or d.dims:
                raise Unsupported("result is not the draw")
            nm, seq, src, hh, _ = tb.found[0]
            if not (seq("i") - t.sym("y", "i")).is_zero() or dim_expr(seq.dims[0]) != dim_expr(self.n):
                raise Unsupported("counts")
            if not (hh() - self.h).is_zero():
                raise Unsupported(f"tables use concentration {t.show(hh())}")
            x = t.sym("x")
            t.declare_positive("x")
            got = laws.logp("gamma", [q() for q in d.params], x)
            Ls = t.sum_over(t.sym(nm, "q0"), "q0", self.n)

            def want(lg):
                s = t.sum_over(lg(self.p("q1")), "q1", self.n)
                return (self.shape0 - 1 + Ls) * t.log(x) - x * (self.rate - s)

            if laws.depends_on(got - want(t.log), {"x"}).is_zero():
                return "normal-form+z3"
            if laws.depends_on(got - want(lambda q: t.log(1 - q)), {"x"}).is_zero():
                raise Known(KNOWN, "rate contains log(1 - p) instead of log(p)")
            raise Unsupported(f"gamma parameters {[t.show(q()) for q in d.params]}")

        check.ob(f"{self.name}: gamma law given the table counts", f, law)

        def conc():
            """Counts of zero and one have as many tables as customers: exact parameters."""
            nodes = [q for q in g.draws([self.out], [l.var for l in self.leaves]) if q.op.name == "gamma"]
            if len(nodes) != 1:
                return 0, 0
            fn = aesara.function([l.var for l in self.leaves], nodes[0].inputs[3:] + [nodes[0].outputs[1].shape], on_unused_input="ignore")
            n, known = 0, False
            for k in range(48):
                rng = np.random.default_rng([SEED, k])
                dims = {"n": 1 + k % 4, "p": 1 + k % 3}
                env = {l.name: np.asarray(generate(l.gen, rng, tuple(dims.get(q, q) for q in l.dims)), dtype=l.var.type.dtype) for l in self.leaves}
                if k >= 12:  # other orders of magnitude, and success probabilities close to zero or one
                    for l in self.leaves:
                        if l.gen in ("pos", "unit"):
                            env[l.name] = np.asarray(magnify(l.gen, env[l.name], rng, 3 + 3 * (k % 2)), dtype=l.var.type.dtype)
                    if "X" in env:
                        env["X"] = env["X"] * rng.uniform(1, 16) / (1e-9 + np.abs(env["X"] @ env["beta"]).max())
                env["y"] = rng.integers(0, 2, size=env["y"].shape)
                a, s, shp = fn(*[env[l.name] for l in self.leaves])
                a0, r0, p = self.numeric(env)
                wa = a0 + env["y"].sum()
                wr = r0 - np.log(p).sum()
                kr = r0 - np.log1p(-p).sum()
                n += 1
                wit = {"inputs": env, "gamma shape": a, "gamma scale": s}
                if np.size(a) != 1 or np.size(s) != 1 or list(shp):
                    raise Refuted(f"{self.name}: dispersion draw of shape {shp}", wit)
                if not np.isclose(float(np.ravel(a)[0]), wa):
                    raise Refuted(f"{self.name}: gamma shape {a} instead of {wa}", wit)
                rr = 1 / float(np.ravel(s)[0])
                if np.isclose(rr, wr):
                    continue
                if np.isclose(rr, kr):
                    known = True
                    continue
                raise Refuted(f"{self.name}: gamma rate {rr} instead of {wr}", wit)
            if known:
                raise Known(KNOWN, "concrete rate contains log(1 - p)")
            return n, n

        check.replay(f"{self.name}: parameters of the draw for counts in {{0, 1}}", f, conc)


disp = []
h, p, a, b, y = at.scalar("h"), at.vector("p"), at.scalar("a"), at.scalar("b"), at.lvector("y")
out, _ = AG.nbinom_dispersion_posterior(RandomStream(3), h, p, a, b, y)
disp.append(Disp("nbinom_dispersion_posterior", FD, out,
                 [Leaf(h, "h", [], "pos"), Leaf(p, "pp", ["n"], "unit"), Leaf(a, "a", [], "pos"), Leaf(b, "b", [], "pos"), Leaf(y, "y", ["n"], "count")],
                 t.sym("a"), 1 / t.sym("b"), lambda i: t.sym("pp", i), t.sym("h"), numeric=lambda e: (e["a"], 1 / e["b"], e["pp"])))


def sampler_cases():
    for kind in ("symbolic", "constants", "observed beta", "latent hyper-parameter", "horseshoe"):
        s = RandomStream(31)
        X = at.matrix("X")
        lv, cut = [Leaf(X, "X", ["n", "p"])], {}
        if kind == "constants":
            hh = s.gamma(2.25, 0.5, name="h")
            A, R, num = t.lift(2.25), t.lift(0.5), lambda e: (2.25, 0.5)
        elif kind == "latent hyper-parameter":
            al = s.gamma(2.0, 1.0, name="al")
            rr = at.scalar("r")
            hh = s.gamma(al, rr, name="h")
            ca = at.scalar("cal")
            cut[al] = ca
            lv += [Leaf(ca, "cal", [], "pos"), Leaf(rr, "r", [], "pos")]
            A, R, num = t.sym("cal"), t.sym("r"), lambda e: (e["cal"], e["r"])
        else:
            aa, rr = at.scalar("a"), at.scalar("r")
            hh = s.gamma(aa, rr, name="h")
            lv += [Leaf(aa, "a", [], "pos"), Leaf(rr, "r", [], "pos")]
            A, R, num = t.sym("a"), t.sym("r"), lambda e: (e["a"], e["r"])
        sd = 1
        if kind == "horseshoe":
            tau = s.halfcauchy(0, 1, name="tau")
            lam = s.halfcauchy(0, 1, size=X.shape[1], name="lam")
            sd = lam * tau
            cut[lam], cut[tau] = at.vector("cl"), at.scalar("ct")
            lv += [Leaf(cut[lam], "cl", ["p"], "pos"), Leaf(cut[tau], "ct", [], "pos")]
        beta = s.normal(0, sd, size=X.shape[1], name="beta")
        Y = s.nbinom(hh, at.sigmoid(-(X @ beta)), name="Y")
        yv = Y.type("y")
        cb, ch = at.vector("cbeta"), at.scalar("ch")
        obs = {Y: yv}
        if kind == "observed beta":
            obs[beta] = cb
        else:
            cut[beta] = cb
        cut[hh] = ch
        lv += [Leaf(cb, "beta", ["p"]), Leaf(ch, "h", [], "pos"), Leaf(yv, "y", ["n"], "count")]

        def pr(i):
            E = t.exp(t.sum_over(t.sym("X", i, "q2") * t.sym("beta", "q2"), "q2", "p"))
            return t.power(1 + E, -1)

        yield kind, obs, hh, lv, cut, A, R, pr, (lambda num: lambda e: (*num(e), 1 / (1 + np.exp(e["X"] @ e["beta"]))))(num)


built = {}
for kind, obs, hh, lv, cut, A, R, pr, num in sampler_cases():
    sampler, init = build(obs, seed=6)
    op = sampler.sample_steps[hh].owner.op
    if "NUTS" in type(op).__name__:
        check.skip(f"sampler, {kind}", FS, "the generic step is used for this model")
        continue
    out = step_graph(sampler, init, hh, {k: v for k, v in cut.items() if k in sampler.sample_steps})
    d = Disp(f"sampler, {kind}", FS, out, lv, A, R, pr, t.sym("h"), numeric=num)
    built[kind] = d
    disp.append(d)
for d in disp:
    d.run()


def cover():
    if not built:
        raise Unsupported("no dispersion step was built")
    return "reachability"


check.ob("the dispersion step is reached from construct_sampler", "aemcmc.basic.construct_sampler", cover)


# ------------------------------------------------------------------ Monte-Carlo invariance
def geweke(d, N):
    draws = g.draws([d.out], [l.var for l in d.leaves])
    ups = {}
    for n in draws:
        r = n.inputs[0]
        if hasattr(r, "get_value"):
            ups[r] = n.outputs[0]
            r.set_value(np.random.default_rng([SEED, len(ups)]))
    for n in scan_nodes([d.out], [l.var for l in d.leaves]):
        for o, _, _, oo in Loop(n).shared:
            ups[o] = oo
            o.set_value(np.random.default_rng([SEED, 100 + len(ups)]))
    fn = aesara.function([l.var for l in d.leaves], d.out, updates=ups, on_unused_input="ignore")
    rng = np.random.default_rng([SEED, 9])
    env = {l.name: np.asarray(generate(l.gen, rng, tuple({"n": 3, "p": 2}.get(q, q) for q in l.dims)), dtype=l.var.type.dtype) for l in d.leaves}
    a0, r0, p = d.numeric(env)
    res = {}
    for swap in (False, True):
        R, S = np.empty(N), np.empty(N)
        for k in range(N):
            hv = rng.gamma(a0, 1 / r0)
            hv = max(hv, 1e-300)
            q = 1 - p if swap else p
            env["y"] = rng.poisson(np.minimum(rng.gamma(hv, (1 - q) / q), 1e6))
            env["h"] = np.asarray(hv)
            h1 = float(fn(*[env[l.name] for l in d.leaves]))
            R[k] = h1
            ly = np.log1p(env["y"].sum())
            S[k] = ly * (np.log(h1 + 1e-300) - np.log(hv))
        pv = stats.kstest(R, stats.gamma(a0, scale=1 / r0).cdf).pvalue
        z = S.mean() / (S.std() / np.sqrt(N))
        res[swap] = (pv, z)
        if pv > 1e-8 and abs(z) < 6.5:
            if swap:
                raise Known(KNOWN, f"invariant for success probabilities 1 - p only ({res})")
            return N, N
    raise Refuted(f"{d.name}: one step from stationarity changes the law of the dispersion (KS p-value, z): {res}",
                  {"inputs": {k: v for k, v in env.items() if k not in ("y", "h")}, "N": N})


N2 = 20000 if THOROUGH else 2500
for d in disp[:1] + [built[k] for k in ("symbolic", "latent hyper-parameter") if k in built]:
    check.replay(f"{d.name}: one step from stationarity", d.func, lambda d=d: geweke(d, N2))
# what the patterns match: the hypotheses of the chosen steps, per model structure
fitting.family(check, ("regression",), kinds=(H.DISP,))
sys.exit(check.finish())
