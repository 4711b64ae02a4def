"""C07: state sequences follow the exact hidden-Markov smoothing law."""
import itertools
import math
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
import z3
from aesara.graph.basic import Constant
from aesara.tensor.random import RandomStream
from aesara.tensor.random.basic import CategoricalRV
from scipy import stats
from scipy.special import logsumexp

from aevc import smt, terms as t
from aevc.denote import Denoter, T, dim_expr, dim_ix, expr_dim, leaf
from aevc.scanview import Loop
from aevc import graph as g
from aevc.terms import Unsupported, ix

from aemcmc.ffbs import ffbs_step

check = Check("C07", "proof")
check.assumptions += [
    "real arithmetic in the obligations (the bounded replays run in float64, including likelihoods and lengths that underflow)",
    "initial and transition probabilities are non-negative, the observations have a positive probability",
    "Lemma (Bayes): s_{N-1} ~ filter_{N-1} and s_n | s_{n+1} ~ filter_n(s) Gamma_{n+1}(s, s_{n+1}) / sum is the smoothing law",
]
check.trusted += [
    "the op contracts in aevc/denote.py; a Scan runs its body n_steps times, step j reading entry j of its sequences",
    "Aesara's categorical op draws from the probabilities it is given",
    "aevc/terms.py normal-form engine; z3",
]
FN = "aemcmc.ffbs.ffbs_step"


# ------------------------------------------------------------------ denotation with loops, maxima, categorical draws
class HMM(Denoter):
    def __init__(self, leaves, **kw):
        super().__init__(leaves, **kw)
        self.maxima = {}
        self.loops = {}
        self.cats = []
        self.inits = {}

    def careduce(self, node, op, x):
        if type(op).__name__ == "MaxAndArgmax" or type(op.scalar_op).__name__ in ("ScalarMaximum", "Maximum"):
            return self.maxred(op, x)
        return super().careduce(node, op, x)

    def maxred(self, op, x):
        axis = op.axis
        axes = tuple(range(x.ndim)) if axis is None else tuple(a % x.ndim for a in np.atleast_1d(axis))
        if x.ndim != 1 or axes != (0,):
            raise Unsupported("maximum over several axes")
        nm = f"MAX{len(self.maxima)}"
        self.maxima[nm] = x
        return T([], lambda: t.sym(nm))

    def apply(self, node):
        n = type(node.op).__name__
        ins = [self.memo.get(i) for i in node.inputs]
        if n == "MaxAndArgmax":
            return [self.maxred(node.op, ins[0])] * len(node.outputs)
        if n == "Join":
            return [self.join(node, ins)]
        return super().apply(node)

    def join(self, node, ins):
        ax, *parts = ins
        if ax().const() != 0 or len(parts) != 2 or parts[0].dims[0] != 1:
            raise Unsupported("join of another form")
        a, b = parts
        s = t.fresh_ix()
        e = b(s)
        for nm, init in self.inits.items():
            if b.ndim == 1 and (e - t.sym(nm, s)).is_zero() and (a(0) - init()).is_zero():
                # entry j of the joined vector is the state before step j
                return T([expr_dim(dim_expr(b.dims[0]) + 1)], lambda i: t.sym(nm, t.ix_add(i, ix(None, -1))))
        raise Unsupported("joined vector is not the sequence of states of a loop")

    def scalar(self, sop, a, node=None):
        n = type(sop).__name__
        if n in ("ScalarMinimum", "Minimum", "ScalarMaximum", "Maximum") and len(a) == 2:
            if a[0] == a[1]:
                return a[0]
            lo = self.truth(t.fn("le", a[0], a[1]))
            if lo is not None:
                return a[0] if lo == n.endswith("inimum") else a[1]
        return super().scalar(sop, a, node)

    def truth(self, c):
        v = c.const()
        if v is not None:
            return bool(v)
        if len(c.terms) == 1:
            (m, k), = c.terms.items()
            if k == 1 and not m[1] and len(m[0]) == 1 and m[0][0][0][0] == "f" and m[0][0][0][1] == "le":
                d = m[0][0][0][2][0] - m[0][0][0][2][1]
                if d.const() is not None:
                    return d.const() <= 0
        return self.facts(c)

    def subtensor(self, node, op, ins):
        return super().subtensor(node, op, ins)

    def rv(self, node, ins):
        if node.op.name != "categorical":
            return super().rv(node, ins)
        size, p = ins[1], ins[3]
        if p.ndim != 1 or (size is not None and size.dims[0] != 0):
            raise Unsupported("categorical draw of another form")
        nm = f"cat{len(self.cats)}"
        self.cats.append((nm, p, node))
        return [None, T([], lambda: t.sym(nm))]


def cond_parts(c):
    """(name, left, right) of a comparison."""
    if len(c.terms) == 1:
        (m, k), = c.terms.items()
        if k == 1 and not m[1] and len(m[0]) == 1 and m[0][0][1] == 1 and m[0][0][0][0] == "f" and len(m[0][0][0][2]) == 2:
            a = m[0][0][0]
            return a[1], a[2][0], a[2][1]
    return None


class Loops:
    """Scan handler: the state after step j of loop k is the symbol `S<k>(j, ...)`."""

    def __init__(self):
        self.items = []

    def __call__(self, D, node, ins):
        loop = Loop(node)
        if len(loop.states) != 1 or loop.maps:
            raise Unsupported("loop of another form")
        by = dict(zip(node.inputs, ins))
        nm = f"S{len(self.items)}"
        n = by[loop.n_steps]()
        (oi, ii, io, oo), = loop.states
        buf = by[oi]
        # the initial buffer holds the initial state in entry 0
        init = self.initial(D, oi)
        k = init.ndim
        D.inits[nm] = init

        def el(j, *i):
            if not j[1] and j[2] == 0:
                return init(*i)
            return t.sym(nm, t.ix_add(j, ix(None, -1)), *i)

        out = T([expr_dim(n + 1)] + init.dims, el)
        seqs = [(by[o], i) for o, i in loop.seqs]
        self.items.append((nm, loop, n, seqs, init, io, ii, {i: by[o] for o, i in loop.nonseqs}))
        outs = [None] * len(node.outputs)
        outs[node.outputs.index(oo)] = out
        return outs

    @staticmethod
    def initial(D, v):
        """The value stored in entry 0 of the state buffer."""
        n = v.owner
        if n is not None and type(n.op).__name__ == "IncSubtensor" and n.op.set_instead_of_inc:
            x = D.tensor(n.inputs[1])
            if x.dims[0] == 1 and list(n.op.idx_list)[0].start is None:
                return T(x.dims[1:], lambda *i: x(0, *i))
        raise Unsupported("state buffer of another form")


# IncSubtensor/AllocEmpty only occur as state buffers
def buffers(D, outs):
    from aesara.graph.basic import ancestors

    for v in ancestors(outs):
        if v.owner is not None and type(v.owner.op).__name__ in ("IncSubtensor", "AllocEmpty"):
            D.memo[v] = None


N_, M_ = t.sym("dim:N"), t.sym("dim:M")
CONFIGS = {"per-time": (["N", "M", "M"], (None, None, None)), "shared": ([1, "M", "M"], (1, None, None)), "matrix": (["M", "M"], (None, None))}


def setup(kind):
    dims, shp = CONFIGS[kind]
    g0, ll = at.vector("g0"), at.matrix("ll")
    G = at.TensorType("float64", shp)("G")
    srng = RandomStream(17)
    out, ups = ffbs_step(g0, G, ll, srng)
    return g0, G, ll, out, ups, srng


class Proof:
    def __init__(self, kind):
        self.kind = kind
        self.g0, self.G, self.ll, self.out, self.ups, _ = setup(kind)
        (self.out,) = g.flatten([self.out])

    def denote(self):
        t.declare_positive("g0", "G")
        D = HMM({self.g0: leaf("g0", ["M"]), self.G: leaf("G", CONFIGS[self.kind][0]), self.ll: leaf("ll", ["M", "N"])})
        buffers(D, [self.out])
        D.scan_handler = lo = Loops()
        r = D.tensor(self.out)
        if len(lo.items) != 2:
            raise Unsupported(f"{len(lo.items)} loops")
        return D, r, lo

    def gamma(self, n, a, b):
        d = CONFIGS[self.kind][0]
        return t.sym("G", *([n, a, b] if d[0] == "N" else [ix(None, 0), a, b] if len(d) == 3 else [a, b]))

    # ------------------------------------------------ obligations
    def ranges(self):
        """Every slice and index of the code is within its array, for every N, M >= 1."""
        D, r, lo = self.denote()
        k = 0
        hyp = []
        for what, kind, data in D.side:
            enc = smt.Enc(ints=True)
            es = [enc.expr(x) for x in data]
            goal = z3.And(0 <= es[0], es[0] <= es[1], es[1] <= es[2]) if kind == "range" else z3.And(0 <= es[0], es[0] < es[1])
            ok, model = smt.prove(goal, enc.defs, vacuity=False)
            if not ok:
                raise Unsupported(f"{what}: {[t.show(x) for x in data]} fails at {model}")
            k += 1
        if D.assumed_equal_dims:
            raise Unsupported(f"dimensions assumed equal: {D.assumed_equal_dims}")
        return "z3"

    def steps(self):
        """The loops run N and N - 1 times."""
        D, r, lo = self.denote()
        (f, b) = lo.items
        if not (f[2] - N_).is_zero() or not (b[2] - (N_ - 1)).is_zero():
            raise Unsupported(f"{t.show(f[2])} and {t.show(b[2])} steps")
        if r.ndim != 1 or not (dim_expr(r.dims[0]) - N_).is_zero():
            raise Unsupported(f"result of length {r.dims}")
        return "normal-form"

    def base(self):
        """The forward loop starts at the initial probabilities (up to a positive factor)."""
        D, r, lo = self.denote()
        init = lo.items[0][4]
        tot = t.sum_over(t.sym("g0", "q"), "q", "M")
        if init.ndim != 1 or not (smt.equal(init("i") * tot, t.sym("g0", "i")) or smt.equal(init("i"), t.sym("g0", "i"))):
            raise Unsupported(f"initial state {t.show(init('i'))}")
        return "normal-form"

    def body(self, item, step, facts):
        """Denote the body of a loop at step `step` (an index) with the state replaced by symbols."""
        nm, loop, n, seqs, init, io, ii, nons = item
        st = leaf("st", init.dims)
        leaves = {ii: st}
        for T_, i in seqs:
            leaves[i] = T(T_.dims[1:], (lambda T_: lambda *q: T_(step, *q))(T_))
        leaves.update(nons)
        leaves.update({i: None for _, i, _, _ in loop.shared})
        D = HMM(leaves, facts=facts)
        return D, io

    def forward(self):
        """Inductive step: state'(s) = c * sum_k state(k) Gamma_n(k, s) * exp(log_lik(s, n)), c > 0."""
        D0, r, lo = self.denote()
        item = lo.items[0]
        if item[1].shared:
            raise Unsupported("generators in the forward loop")
        t.declare_positive("st")
        P = lambda s: t.sum_over(t.sym("st", "q") * self.gamma(ix("n"), ix("q"), ix(s)), "q", "M")
        L = t.sym("ll", "s", "n")

        def run(reach, choices):
            asked = []
            cur = {}

            def facts(c):
                cp = cond_parts(c)
                if cp is None:
                    return None
                op, a, b = cp
                # the reachability of the state `s`
                if op in ("gt", "neq") and b.is_zero() and (a - P("s")).is_zero():
                    return reach
                if op in ("le", "eq") and b.is_zero() and (a - P("s")).is_zero():
                    return not reach
                if op in ("lt", "le", "gt", "ge"):
                    # a maximum is at least each of its elements
                    d = a - b if op in ("lt", "le") else b - a
                    for m, x in cur["D"].maxima.items():
                        mm = t.sym(m)
                        (k,) = [c2 for mo, c2 in d.terms.items() if mo == next(iter(mm.terms))] or [0]
                        if k < 0:
                            up = d - mm * k + x("s") * k
                            if up.is_zero() and op in ("le", "ge"):
                                return True
                if "s" in t.free_ix(c) or [q for q in t.free_ix(c) if q not in ("n",)]:
                    return None
                if c not in asked:
                    asked.append(c)
                return choices[asked.index(c)] if asked.index(c) < len(choices) else True

            D, io = self.body(item, ix("n"), facts)
            cur["D"] = D
            o = D.tensor(io)
            return o("s"), asked, D

        results = []
        for reach in (True, False):
            todo = [()]
            seen = 0
            while todo:
                ch = todo.pop()
                e, asked, D = run(reach, ch)
                if len(asked) > len(ch):
                    todo += [ch + (True,), ch + (False,)] if len(ch) < 4 else []
                    if len(ch) >= 4:
                        raise Unsupported("too many cases")
                    continue
                seen += 1
                results.append((reach, ch, e))
        free = [e for reach, ch, e in results if reach]
        sums = []  # positive normalisers: sums of weights that are proportional to the filter
        for e in free:
            if not [a for m in e.terms for a, _ in m[0] if a[0] == "p"]:
                pass
        k = 0
        for reach, ch, e in results:
            if not reach:
                # every term has a factor state(k) Gamma(k, s) with the same k, which vanishes
                for m in e.terms:
                    ok = False
                    for a, x in m[0]:
                        if a[0] == "s" and a[1] == "st" and x >= 1:
                            gm = next(iter(self.gamma(ix("n"), a[2][0], ix("s")).terms))[0][0][0]
                            ok |= any(b == gm and y >= 1 for b, y in m[0])
                    if not ok:
                        raise Unsupported(f"unreachable state keeps {t.show(e)[:200]}")
            else:
                K = e * t.power(P("s"), -1) * t.exp(-L)
                num, den = t.together(e * t.exp(-L))
                K = self.ratio(num, P("s")) * t.power(den, -1)
                self.positive(K)
            k += 1
        return "normal-form+cases"

    def ratio(self, a, b):
        """K with a = K * b, K free of the state index `s`."""
        # compare the monomial that b contributes
        K = None
        for m, c in a.terms.items():
            for mb, cb in b.terms.items():
                fa, fb = dict(m[0]), dict(mb[0])
                # match bound names
                if len(m[1]) != len(mb[1]):
                    continue
                mp = {s2: ix(s1) for (s1, _), (s2, _) in zip(m[1], mb[1])}
                fb = {t.atom_subst(q, mp): x for q, x in mb[0]}
                rest = dict(fa)
                for q, x in fb.items():
                    rest[q] = rest.get(q, 0) - x
                rest = [(q, x) for q, x in rest.items() if x]
                if any("s" in t.atom_ix(q) or t.atom_ix(q) & {s for s, _ in m[1]} for q, _ in rest):
                    continue
                K = t.mk_mono(rest, ()) * (c / cb)
        if K is None or not (a - K * b).is_zero():
            raise Unsupported(f"not proportional to the filter: {t.show(a)[:300]}")
        return K

    def positive(self, K):
        """K > 0: a product of exponentials and of sums of non-negative weights."""
        if len(K.terms) != 1:
            raise Unsupported(f"factor {t.show(K)[:200]}")
        (m, c), = K.terms.items()
        if c <= 0:
            raise Unsupported("negative factor")

        def nonneg(e):
            return all(c > 0 and all((a[0] == "f" and a[1] == "exp") or (a[0] == "s" and a[1] in ("st", "G", "g0"))
                                     or (a[0] == "p" and nonneg(a[1])) for a, _ in mm[0]) for mm, c in e.terms.items())

        for a, x in m[0]:
            if a[0] == "f" and a[1] == "exp":
                continue
            if a[0] == "p" and nonneg(a[1]):
                continue
            raise Unsupported(f"sign of {t.show_atom(a)[:200]}")
        if m[1] and not nonneg(K):
            raise Unsupported("sign of a sum")

    def normalised(self, p, weights):
        """p(s) is the normalisation of weights(s)."""
        tot = t.sum_over(weights("q9"), "q9", "M")
        return smt.equal(p("s") * tot, weights("s"))

    def last(self):
        """The last state is drawn from the last filter probabilities."""
        D, r, lo = self.denote()
        if len(D.cats) != 1:
            raise Unsupported(f"{len(D.cats)} draws outside of the loops")
        nm, p, node = D.cats[0]
        A = lambda s: t.sym("S0", t.ix_add(dim_ix("N"), ix(None, -1)), s)
        if not self.normalised(p, A):
            raise Unsupported(f"probabilities {t.show(p('s'))}")
        init = lo.items[1][4]
        if init.ndim or not (init() - t.sym(nm)).is_zero():
            raise Unsupported("backward loop starts elsewhere")
        return "normal-form"

    def backward(self):
        """Step j draws the state at n = N - 2 - j from filter_n(s) Gamma_{n+1}(s, state)."""
        D0, r, lo = self.denote()
        item = lo.items[1]
        D, io = self.body(item, ix("j"), lambda c: None)
        o = D.tensor(io)
        if len(D.cats) != 1 or o.ndim or not (o() - t.sym(D.cats[0][0])).is_zero():
            raise Unsupported("state is not a single draw")
        p = D.cats[0][1]
        n = ("ix", (("N", 1), ("j", -1)), -2)
        n = t.ix_add(t.ix_sub(dim_ix("N"), ix("j")), ix(None, -2))
        st = dim_ix(expr_dim(t.sym("st")))
        W = lambda s: t.sym("S0", n, s) * self.gamma(t.ix_add(n, ix(None, 1)), ix(s), st)
        if not self.normalised(p, W):
            raise Unsupported(f"probabilities {t.show(p('s'))[:400]}")
        return "normal-form"

    def order(self):
        """Entry i of the result is the state drawn for position i."""
        D, r, lo = self.denote()
        # S1(j) is the state at N - 2 - j (S1(-1) is the last state), so entry i must be S1(N - 2 - i)
        want = t.sym("S1", t.ix_add(t.ix_sub(dim_ix("N"), ix("i")), ix(None, -2)))
        if not (r("i") - want).is_zero():
            raise Unsupported(f"entry i is {t.show(r('i'))}")
        return "normal-form"

    def gens(self):
        D, r, lo = self.denote()
        lo.items[1][1].check_generators()
        own = {o for o, _, _, _ in lo.items[1][1].shared}
        rr = D.cats[0][2].inputs[0]
        if rr in own:
            raise Refuted("the last state and the loop use the same generator", {"kind": self.kind}, replayed=False)
        return "structural"


for kind in CONFIGS:
    try:
        pr = Proof(kind)
    except Exception as e:  # a build failure is a finding of the replays below
        pr, err = None, e
    for nm in ("ranges", "steps", "base", "forward", "last", "backward", "order", "gens"):
        def thunk(nm=nm, pr=pr):
            if pr is None:
                raise Unsupported(f"ffbs_step could not be built: {err}")
            return getattr(pr, nm)()

        check.ob(f"{kind} transition matrices: {getattr(Proof, nm).__doc__ or 'fresh draws for every position'}".strip(), FN, thunk)

# ------------------------------------------------------------------ exact law of concrete inputs
KEY = "filter-range"


class Recorder:
    """Stand-in for the generator call of categorical draws: records the probabilities, returns chosen states."""

    def __enter__(self):
        self.old = CategoricalRV.__dict__["rng_fn"]
        rec = self

        def rng_fn(cls, rng, p, size):
            rec.ps.append(np.array(p, dtype=float))
            k = rec.plan[len(rec.ps) - 1] if len(rec.ps) <= len(rec.plan) else 0
            return np.asarray(k, dtype="int64")

        CategoricalRV.rng_fn = classmethod(rng_fn)
        return self

    def __exit__(self, *a):
        CategoricalRV.rng_fn = self.old


def exact(g0, G, ll):
    """log-probabilities of all state sequences by enumeration."""
    M, N = ll.shape
    G = np.broadcast_to(G, (N, M, M))
    with np.errstate(divide="ignore"):
        lg0, lG = np.log(g0 / g0.sum()), np.log(G)
    res = {}
    # the first state is reached from the initial state through Gamma_0
    first = logsumexp(lg0[:, None] + lG[0], axis=0)
    for s in itertools.product(range(M), repeat=N):
        v = first[s[0]] + ll[s[0], 0]
        for n in range(1, N):
            v = v + lG[n][s[n - 1], s[n]] + ll[s[n], n]
        res[s] = v
    z = logsumexp(list(res.values()))
    return {s: v - z for s, v in res.items()}


def law(fn, args, M, N):
    """Exact probabilities with which the real code produces each state sequence."""
    res = {}
    with Recorder() as rec:
        for s in itertools.product(range(M), repeat=N):
            rec.plan, rec.ps = list(reversed(s)), []
            out = fn(*args)
            if len(rec.ps) != N:
                raise Unsupported(f"{len(rec.ps)} categorical draws for {N} positions")
            out = tuple(int(v) for v in np.ravel(out))
            pr = 1.0
            for k, p in zip(rec.plan, rec.ps):
                # the real op draws the k-th state with the k-th difference of the cumulative sums
                cum = np.concatenate([[0], np.minimum(np.cumsum(p), 1.0)])
                last = 1.0 if k == len(p) - 1 else cum[k + 1]
                if np.isnan(p).any():
                    pr = math.nan
                    break
                pr *= p[k] if abs(np.sum(p) - 1) < 1e-9 else last - cum[k]
                if pr == 0:
                    break
            if pr != 0:
                res[out] = res.get(out, 0.0) + pr
    return res


fns = {}


def compiled(kind):
    if kind not in fns:
        g0, G, ll, out, ups, srng = setup(kind)
        fns[kind] = aesara.function([g0, G, ll], out, updates=dict(ups))
    return fns[kind]


def cases():
    rng = np.random.default_rng([SEED, 7])
    for kind in CONFIGS:
        for M, N in ((2, 1), (2, 2), (3, 2), (2, 4), (3, 3), (1, 3), (4, 2)):
            for z in range(2 if THOROUGH else 1):
                shp = {"per-time": (N, M, M), "shared": (1, M, M), "matrix": (M, M)}[kind]
                G = rng.dirichlet(np.ones(M), size=shp[:-1]).reshape(shp)
                if z:
                    G = np.where(rng.random(shp) < 0.4, 0, G) + 1e-3 * np.eye(M)
                    G = G / G.sum(-1, keepdims=True)
                yield f"{kind} M={M} N={N}", kind, rng.gamma(1.0, 1.0, size=M) * rng.choice([1, 5, 0.01]), G, rng.normal(size=(M, N)) * 3
    U = np.array([[[0.9, 0.1], [0.1, 0.9]]])
    for nm, gv, G, L in [
        ("unreachable first state", [0, 1.0], U, [[0, 0, 0], [-1, -2, -1]]),
        ("absorbing", [0.5, 0.5], [[[1.0, 0], [0.5, 0.5]]], [[-3, -1, 0], [0, 0, 0]]),
        ("identity", [0.3, 0.7], np.eye(2)[None], [[-3, -1, 0], [0, 0, 0]]),
        ("underflow of the likelihood", [0.5, 0.5], U, [[-3000] * 4, [-3001] * 4]),
        ("underflow of one state", [0.5, 0.5], U, [[-3000] * 4, [0] * 4]),
        ("unreachable state has the largest likelihood", [1.0, 0], np.eye(2)[None], [[-800] * 4, [0] * 4]),
        ("small products", [0.5, 0.5], U, [[-800, 0, 0, 0], [0, 0, 0, -790]]),
        ("large likelihoods", [0.5, 0.5], U, [[800] * 4, [799] * 4]),
        ("tiny initial probabilities", [1e-200, 3e-200], U, [[0, 1, 2], [2, 1, 0]]),
        ("rare transitions", [0.5, 0.5], [[[1 - 1e-12, 1e-12], [1e-12, 1 - 1e-12]]], [[0, -40, 0], [-40, 0, -40]]),
        ("impossible observations of a state", [0.5, 0.5], U, [[0, -np.inf, 0], [0, 0, 0]]),
    ]:
        yield nm, "shared", np.array(gv, float), np.array(G, float), np.array(L, float)
    yield "underflow through time", "shared", np.array([0.0, 1.0]), np.array([[[1.0, 0], [1e-200, 1]]]), np.array([[0, 0, 0, 0.0], [-800, 0, 0, 0.0]])


def one(nm, kind, gv, G, L):
    fn = compiled(kind)
    M, N = L.shape
    want = exact(gv, G, L)
    got = law(fn, (gv, G, L), M, N)
    wit = {"case": nm, "gamma_0": gv, "Gammas": G, "log_lik": L}
    for s, v in want.items():
        p = got.get(s, 0.0)
        if not (abs(p - math.exp(v)) <= 1e-6):
            raise Refuted(f"{nm}: the sequence {s} has probability {p} instead of {math.exp(v)}", wit)
    if set(got) - set(want):
        raise Refuted(f"{nm}: impossible results {set(got) - set(want)}", wit)
    return len(want), 1


def exact_law(group):
    n = d = 0
    for c in group:
        a, b = one(*c)
        n, d = n + a, d + b
    return n, d


allc = list(cases())
for kind in list(CONFIGS):
    check.replay(f"exact law of all sequences, random inputs, {kind} transition matrices", FN,
                 lambda kind=kind: exact_law([c for c in allc if c[0].startswith(kind)]))
for c in allc:
    if not any(c[0].startswith(k) for k in CONFIGS):
        check.replay(f"exact law: {c[0]}", FN, lambda c=c: exact_law([c]))


def known_case():
    """Two unconnected chains whose total likelihoods differ by less than their intermediate ratio."""
    try:
        return one("filter range", "shared", np.array([0.5, 0.5]), np.eye(2)[None], np.array([[0, 0, 0, -2000.0], [-800.0, 0, 0, 0]]))
    except Refuted as e:
        raise Known(KEY, str(e))


check.replay("exact law: filter probabilities outside of the range of floats", FN, known_case)


# ------------------------------------------------------------------ long sequences and empirical law
def long():
    n = 0
    for N, scale, kind in ((2000, 1.0, "shared"), (600, 400.0, "shared"), (3000, 0.0, "shared"), (2500, 1.0, "per-time")):
        rng = np.random.default_rng([SEED, N])
        M = 3
        G = rng.dirichlet(np.ones(M) * 0.7, size=(N if kind == "per-time" else 1, M))
        L = rng.normal(size=(M, N)) * scale - 50
        gv = rng.dirichlet(np.ones(M))
        fn = compiled(kind)
        # exact backward probabilities in log space
        with np.errstate(divide="ignore"):
            lG = np.broadcast_to(np.log(G), (N, M, M))
        a = np.log(gv)
        F = []
        for k in range(N):
            a = logsumexp(a[:, None] + lG[k], axis=0) + L[:, k]
            a = a - logsumexp(a)
            F.append(a)
        with Recorder() as rec:
            rec.plan = [int(v) for v in rng.integers(0, M, size=N)]
            rec.ps = []
            out = np.ravel(fn(gv, G, L))
            if len(rec.ps) != N:
                raise Unsupported("draws of another form")
            if list(out) != rec.plan[::-1]:
                raise Refuted("the state at position t is not entry t of the result", {"N": N})
        # the chosen states may have probability zero given the next one: skip those conditionals
        for j, p in enumerate(rec.ps):
            k = N - 1 - j
            w = F[k] if j == 0 else F[k] + lG[k + 1][:, rec.plan[j - 1]]
            if not np.isfinite(logsumexp(w)):
                continue
            q = np.exp(w - logsumexp(w))
            # ratios of the filter below the smallest float are the listed finding
            if np.ptp(F[k]) > 650:
                continue
            if not np.allclose(p, q, atol=1e-8):
                raise Refuted(f"position {k} of {N}: probabilities {p} instead of {q}", {"N": N, "scale": scale, "log_lik": L[:, k], "filter": F[k]})
            n += 1
    return n, n


check.replay("conditional probabilities along long sequences", FN, long)


def empirical():
    """Draws of the real code, with its own generators, over repeated calls."""
    n = 0
    R = 30000 if THOROUGH else 1200
    for kind in ("per-time", "shared"):
        rng = np.random.default_rng([SEED, 77])
        M, N = 2, 3
        G = rng.dirichlet(np.ones(M), size=(N if kind == "per-time" else 1, M))
        gv, L = np.array([0.4, 1.2]), rng.normal(size=(M, N))
        fn = compiled(kind)
        want = exact(gv, G, L)
        seq = [tuple(int(v) for v in fn(gv, G, L)) for _ in range(R)]
        keys = sorted(want)
        for lag in (0, 1):
            if lag == 0:
                obs = np.array([sum(s == k for s in seq) for k in keys])
                e = np.array([math.exp(want[k]) for k in keys]) * R
            else:
                pairs = {}
                for a, b in zip(seq[::2], seq[1::2]):
                    pairs[a[0], b[0]] = pairs.get((a[0], b[0]), 0) + 1
                m = [sum(math.exp(want[k]) for k in keys if k[0] == v) for v in range(M)]
                e = np.array([m[i] * m[j] for i in range(M) for j in range(M)]) * (R // 2)
                obs = np.array([pairs.get((i, j), 0) for i in range(M) for j in range(M)])
            keep = e > 5
            st = ((obs[keep] - e[keep]) ** 2 / e[keep]).sum()
            if stats.chi2.sf(st, max(keep.sum() - 1, 1)) < 1e-8:
                raise Refuted(f"{kind}: frequencies {obs} instead of {e} (lag {lag})", {"gamma_0": gv, "Gammas": G, "log_lik": L})
            n += 1
    return n, n


check.replay("empirical law over repeated calls", FN, empirical)
sys.exit(check.finish())
