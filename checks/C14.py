"""C14: the graph rewriting for step discovery preserves the model's meaning."""
import itertools
import random
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, clone_replace
from aesara.graph.fg import FunctionGraph
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable

import aemcmc.rewriting as rw
from aevc import graph as g
from aevc import models as M
from aevc import nearmiss as NM
from aevc import terms as t
from aevc.contracts import remove_constants_contract
from aevc.denote import Denoter, leaf
from aevc.subject import identity
from aevc.sweeps import variants
from aevc.terms import Unsupported

check = Check("C14", "proof")
check.assumptions += [
    "real arithmetic in the obligations (replays run in float64)",
    "Aesara's own canonicalisation is part of the conversion under contract (its result is checked, not assumed); the traversal engine that applies node rewrites terminates",
]
check.trusted += [
    "the op contracts in aevc/denote.py; aevc/terms.py normal-form engine; the expansion of OpFromGraph in aevc/graph.py",
    "aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3",
]
F1 = "aemcmc.rewriting.local_elemwise_dimshuffle_subsume / SubsumingElemwise"
F2 = "aemcmc.rewriting.inline_SubsumingElemwise"
F3 = "aemcmc.rewriting.construct_ir_fgraph"
F4 = "aemcmc.rewriting.expand_subsumptions"

remove_constants_contract(check, "aemcmc.utils.remove_constants")


def subsuming(outs):
    return [n for n in FunctionGraph(outputs=list(outs), clone=False).toposort() if isinstance(n.op, rw.SubsumingElemwise)] if hasattr(rw, "SubsumingElemwise") else []


# ------------------------------------------------------------------ denotations
class Den:
    """The random variables `rvs` (in topological order) and their parameters."""

    def __init__(self, leaves, rvs):
        D = Denoter(leaves)
        self.rvs, self.items = rvs, []
        D.memo.update(leaves)
        for k, rv in enumerate(rvs):
            n = len(D.draws)
            D.prefix = "rv"
            node = rv.owner
            try:
                D.tensor(rv)
                d = D.draws[-1]
                assert len(D.draws) == n + 1 and d.node is node
                self.items.append((node.op.name, d.dims, [p for p in d.params]))
                # the name by position
                D.memo[rv] = leaf(f"rv{k}", d.dims)
            except Unsupported:
                # vector parameters: the parameters themselves are compared
                ps = [D.tensor(p) for p in node.inputs[1:] if p.type.dtype is not None]
                dims = [s if s is not None else f"rv{k}_{j}" for j, s in enumerate(rv.type.shape)]
                self.items.append((node.op.name, [p.dims for p in ps], ps))
                D.memo[rv] = leaf(f"rv{k}", dims)
        self.D = D


def leaves_of(data):
    L = {}
    for i, v in enumerate(data):
        if hasattr(v.type, "shape"):
            L[v] = leaf(f"data{i}", [s if s is not None else f"d{i}_{k}" for k, s in enumerate(v.type.shape)])
    return L


def data_of(rvs):
    return [v for v in g.leaves(rvs) if not isinstance(v, Constant) and hasattr(v.type, "shape")]


def same(a, b, what):
    """Equal tensors: dimensions and elements."""
    if list(map(str, a.dims)) != list(map(str, b.dims)):
        raise Unsupported(f"{what}: shape {a.dims} instead of {b.dims}")
    ix = [f"i{k}" for k in range(a.ndim)]
    return identity(a(*ix), b(*ix), None, what)


def same_models(A, B, label):
    bs = set()
    for k, ((ka, da, pa), (kb, db, pb)) in enumerate(zip(A.items, B.items)):
        if ka != kb or len(pa) != len(pb):
            raise Unsupported(f"{label(k)}: {ka} became {kb}")
        if str(da) != str(db):
            raise Unsupported(f"{label(k)}: shape {da} became {db}")
        for j, (x, y) in enumerate(zip(pa, pb)):
            bs.add(same(y, x, f"parameter {j} of {label(k)}"))
    return ", ".join(sorted(bs)) or "normal-form"


# ------------------------------------------------------------------ one rewrite step, every axis pattern
def patterns():
    """(rank of the input, static shape, order): all orders with up to four output axes."""
    for R in (1, 2, 3, 4):
        for r in range(0, min(R, 3) + 1):
            for pos in itertools.permutations(range(R), r):
                order = ["x"] * R
                for ax, p in enumerate(pos):
                    order[p] = ax
                yield r, (None,) * r, tuple(order)
    # broadcastable axes that are dropped
    for sh in ((None, 1), (1, None), (None, 1, None), (1, None, None), (None, None, 1), (1, 1, None), (1, None, 1)):
        keep = [k for k, s in enumerate(sh) if s is None]
        for R in (1, 2, 3, 4):
            if R < len(keep):
                continue
            for pos in itertools.permutations(range(R), len(keep)):
                order = ["x"] * R
                for ax, p in zip(keep, pos):
                    order[p] = ax
                yield len(sh), sh, tuple(order)
    # static broadcastable axes that stay
    for sh in ((1, None), (None, 1), (1, 1)):
        for R in (2, 3):
            for pos in itertools.permutations(range(R), 2):
                order = ["x"] * R
                for ax, p in zip((0, 1), pos):
                    order[p] = ax
                yield 2, sh, tuple(order)


def transform(rewrite, out):
    fg = FunctionGraph(outputs=[out], clone=False)
    r = rewrite.transform(fg, out.owner)
    if not r:
        return None
    r = list(r.values()) if isinstance(r, dict) else list(r)
    return r[out.owner.outputs.index(out)]


class Rule:
    def __init__(self, name, out, leaves):
        self.name, self.out, self.leaves = name, out, leaves
        self.new = self.back = None
        self.error = None
        try:
            self.new = transform(rw.local_elemwise_dimshuffle_subsume, out)
            if self.new is not None:
                self.back = transform(rw.inline_SubsumingElemwise, self.new)
        except Exception as exc:
            self.error = exc

    def denote(self, v):
        # symbolic sizes that meet are the same size
        D = Denoter({x: leaf(n, d) for x, n, d in self.leaves})
        return D.tensor(g.flatten([v])[0])

    def prove(self):
        if self.error is not None:
            raise Unsupported(f"{type(self.error).__name__}: {self.error}")
        if self.new is None:
            return "not rewritten"
        a, b = self.denote(self.out), self.denote(self.new)
        r = same(b, a, f"{self.name}: folded")
        if self.back is None:
            raise Unsupported("not unfolded")
        if subsuming([self.back]):
            raise Unsupported("folded operations remain")
        return max(r, same(self.denote(self.back), a, f"{self.name}: unfolded"))

    def run(self, seed=0):
        if self.error is not None:
            raise Refuted(f"{self.name}: the rewrite fails: {type(self.error).__name__}: {self.error}", {"expression": aesara.printing.debugprint(self.out, file="str")})
        if self.new is None:
            return 0, 0
        for what, v in (("folded", self.new), ("unfolded", self.back)):
            if v is None or v.type.ndim != self.out.type.ndim or v.type.dtype != self.out.type.dtype:
                raise Refuted(f"{self.name}: {what} to the type {getattr(v, 'type', None)} instead of {self.out.type}", {})
        rng = np.random.default_rng(SEED * 13 + seed)
        size = {}
        vals = {}
        for x, n, d in self.leaves:
            sh = tuple(q if isinstance(q, int) else size.setdefault(q, 2 + len(size)) for q in d)
            vals[x] = np.asarray(rng.uniform(0.2, 1.5, size=sh), dtype=x.type.dtype)
        xs = [x for x, _, _ in self.leaves]
        f = aesara.function(xs, g.flatten([self.out, self.new, self.back]), mode="FAST_COMPILE", on_unused_input="ignore")
        a, b, c = f(*[vals[x] for x in xs])
        for what, v in (("folded", b), ("unfolded", c)):
            if v.shape != a.shape or not np.allclose(v, a, equal_nan=True):
                raise Refuted(f"{self.name}: {what}, the expression evaluates to {v.ravel()[:4].tolist()} (shape {v.shape}) instead of {a.ravel()[:4].tolist()} (shape {a.shape})",
                              {"inputs": {n: vals[x] for x, n, _ in self.leaves}})
        return 2, 2


def rules():
    T = lambda sh, n: at.TensorType("float64", sh)(n)  # noqa: E731
    for r, sh, order in patterns():
        x = T(sh, "x")
        xd = [1 if s == 1 else f"n{k}" for k, s in enumerate(sh)]
        c = T((None,) * len(order), "c")
        cd = [f"n{o}" if o != "x" and sh[o] is None else f"m{k}" for k, o in enumerate(order)]
        if tuple(range(r)) == order:
            continue
        y = x.dimshuffle(order)
        lv = [(x, "x", xd), (c, "c", cd)]
        yield Rule(f"c - x{list(sh)} in order {order}", c - y, lv)
        if len(order) < 4 or r == 3:
            yield Rule(f"x{list(sh)} in order {order} over c", y / c, lv)
        if len(order) <= 3:
            yield Rule(f"exp of x{list(sh)} in order {order}", at.exp(y), lv[:1])
            yield Rule(f"constant minus x{list(sh)} in order {order}", at.as_tensor(np.full((1,) * len(order), 2.5)) - y, lv[:1])
    v, w, m, s = at.dvector("v"), at.dvector("w"), at.dmatrix("m"), at.dscalar("s")
    sh = aesara.shared(np.array([1.0, 2.0, 3.0]), name="sh")
    V, W, Mx, Sc = (v, "v", ["n"]), (w, "w", ["n"]), (m, "m", ["k", "n"]), (s, "s", [])
    SH = (sh, "sh", ["n"])
    yield Rule("vector and matrix", v - m, [V, Mx])
    yield Rule("matrix and vector", m / v, [V, Mx])
    yield Rule("scalar and vector", s - v, [Sc, V])
    yield Rule("the same vector twice", v.dimshuffle("x", 0) - v.dimshuffle("x", 0), [V])
    yield Rule("two vectors", v.dimshuffle("x", 0) - w.dimshuffle(0, "x"), [V, (w, "w", ["k"])])
    yield Rule("scalar twice", at.switch(at.lt(s, v), s + v, v), [Sc, V])
    yield Rule("a vector and its matrix", at.as_tensor(v.dimshuffle("x", 0)) - m * 1.0, [V, Mx])
    yield Rule("constants and a vector", at.add(v.dimshuffle("x", 0), np.ones((1, 1)), m), [V, Mx])
    yield Rule("three terms", at.add(v.dimshuffle("x", 0), s.dimshuffle("x", "x"), m), [V, Sc, Mx])
    yield Rule("shared vector", sh - m, [SH, Mx])
    yield Rule("shared vector and a random-like vector", at.add(sh.dimshuffle("x", 0), v.dimshuffle("x", 0), m), [SH, V, Mx])
    yield Rule("power", v.dimshuffle("x", 0) ** m, [V, Mx])
    yield Rule("sigmoid", at.sigmoid(v.dimshuffle("x", 0)), [V])
    yield Rule("comparison", at.lt(v.dimshuffle("x", 0), m), [V, Mx])
    yield Rule("maximum", at.maximum(v.dimshuffle("x", 0), m), [V, Mx])
    yield Rule("switch", at.switch(at.lt(m, 0.5), v.dimshuffle("x", 0), w.dimshuffle("x", 0)), [V, W, Mx])
    yield Rule("negation", -v.dimshuffle("x", 0), [V])
    yield Rule("log", at.log(v.dimshuffle("x", 0)), [V])


n_pat = 0
for R in rules():
    if not R.leaves:
        continue
    n_pat += 1
    check.ob(f"rule: {R.name}", F1 + "; " + F2, R.prove)
    check.replay(f"rule: {R.name}: evaluation", F1 + "; " + F2, R.run)


# ------------------------------------------------------------------ whole models
class Conv:
    """The conversion of one model, and its expansion."""

    def __init__(self, m):
        self.m = m
        self.fg, self.obs, self.memo, self.new_to_old = rw.construct_ir_fgraph(dict(m.obs))
        self.old = list(m.rvs)
        back = {o: n for n, o in self.new_to_old.items()}
        self.new = [back.get(o) for o in self.old]
        self.folded = len(subsuming(self.fg.outputs))
        self.params_ir = None

    def maps(self):
        m, bad = self.m, None
        if len(self.new_to_old) != len(m.rvs) or any(n is None for n in self.new):
            bad = f"the variables {[m.label(o) for o, n in zip(self.old, self.new) if n is None]} are not mapped back"
        elif set(self.fg.outputs) != set(self.new):
            bad = "the converted graph's outputs are not the converted random variables"
        else:
            for o, n in zip(self.old, self.new):
                if n.owner is None or not isinstance(n.owner.op, RandomVariable) or n.owner.op != o.owner.op:
                    bad = f"{m.label(o)} ({o.owner.op}) is mapped to {n.owner}"
                elif n.name != o.name:
                    bad = f"the name of {m.label(o)} became {n.name}"
                elif n.type.dtype != o.type.dtype or n.type.ndim != o.type.ndim:
                    bad = f"the type {o.type} of {m.label(o)} became {n.type}"
                elif n.owner.inputs[0] is not o.owner.inputs[0] and n.owner.inputs[0] is not self.memo.get(o.owner.inputs[0]):
                    bad = f"the generator of {m.label(o)} was exchanged"
            want = {n: m.obs[o] for o, n in zip(self.old, self.new) if o in m.obs}
            if bad is None and (set(want) != set(self.obs) or any(self.obs[k] is not v for k, v in want.items())):
                bad = "the observed values do not belong to their variables any more"
        if bad:
            raise Refuted(f"{m.name}: {bad}", {"model": m.name}, replayed="structural fact of the returned maps")
        return "structure of the returned maps"

    def prove(self, flat):
        A = Den(leaves_of(data_of(self.old)), self.old)
        new = self.new
        L = leaves_of(data_of(self.old))
        if flat:
            # folded operations are expanded by their definition
            outs = g.flatten(new)
            B = Den(L, outs)
        else:
            B = Den(L, new)
        return same_models(A, B, lambda k: self.m.label(self.old[k]))

    def parameters(self, flat):
        try:
            return self.prove(flat)
        except Unsupported:
            # operations without a contract: the parameters are the same terms
            outs = g.flatten(self.new) if flat else self.new
            leafmap = dict(zip(outs, self.old))
            for a, b in zip(outs, self.old):
                lm = {k: v for k, v in leafmap.items() if k is not a}
                if not g.congruent(list(a.owner.inputs[1:]), list(b.owner.inputs[1:]), lm):
                    raise
            return "congruence"

    def expand(self):
        rw.expand_subsumptions.rewrite(self.fg)
        if list(self.fg.outputs) != self._outs:
            raise Refuted("the expansion exchanges the random variables", {"model": self.m.name}, replayed="structural fact of the expanded graph")
        if subsuming(self.fg.outputs):
            raise Refuted("folded operations remain after the expansion", {"model": self.m.name}, replayed="structural fact of the expanded graph")
        return "structure of the expanded graph"

    def numbers(self, rvs, flat=False):
        """A function from the data and the random variables' values to all their parameters."""
        data = data_of(self.old)
        ins = [d for d in data if not isinstance(d, SharedVariable)]
        vals = [o.type() for o in rvs]
        ps = [p for rv in rvs for p in rv.owner.inputs[1:]]
        if flat:
            outs = g.flatten(list(rvs) + ps)
            rvs, ps = outs[: len(rvs)], outs[len(rvs):]
        keep = [at.as_tensor(p) if not hasattr(p.type, "ndim") else p for p in ps if hasattr(p.type, "shape")]
        # later variables first: a variable's own parameters do not depend on it
        out = clone_replace(keep, dict(zip(rvs, vals)))
        return aesara.function(ins + vals, out, on_unused_input="ignore", mode="FAST_COMPILE"), ins

    def evaluate(self, f, ins, seeds):
        res = []
        for k in seeds:
            pv = self.m.prior_values(k)
            args = [self.m.data[d] for d in ins]
            res.append(f(*args, *[np.asarray(pv[o], dtype=o.type.dtype) for o in self.old]))
        return res


def agree(m, a, b, what):
    n = 0
    for x, y in zip(a, b):
        if len(x) != len(y):
            raise Refuted(f"{m.name}: {what}: {len(y)} parameters instead of {len(x)}", {})
        for p, q in zip(x, y):
            p, q = np.asarray(p), np.asarray(q)
            try:
                p, q = np.broadcast_arrays(p, q)
            except ValueError:
                raise Refuted(f"{m.name}: {what}: a parameter of shape {q.shape} instead of {p.shape}", {})
            if not np.allclose(p, q, rtol=1e-6, atol=1e-10, equal_nan=True):
                raise Refuted(f"{m.name}: {what}, a parameter evaluates to {q.ravel()[:5].tolist()} instead of {p.ravel()[:5].tolist()}", {"model": m.name})
            n += 1
    return n


def whole(tag, make, prove=True):
    try:
        m = make()
        m.prior_values(SEED)
    except Exception as exc:
        check.skip(tag, F3, f"the model itself: {type(exc).__name__}")
        return
    box = {}

    def build():
        c = Conv(m)
        box["c"] = c
        f0, ins = c.numbers(c.old)
        seeds = range(SEED, SEED + 2)
        ref = c.evaluate(f0, ins, seeds)
        f1, _ = c.numbers(c.new, flat=True)
        n = agree(m, ref, c.evaluate(f1, ins, seeds), "converted")
        box["ref"] = ref, ins, seeds
        return n, n

    if check.replay(f"{tag}: evaluation of the converted model", F3, build) != "held" or "c" not in box:
        if "c" not in box:
            return
    c = box["c"]
    c._outs = list(c.fg.outputs)
    check.ob(f"{tag}: variables, names, generators and values", F3, c.maps)
    if any(n is None for n in c.new):
        return
    if prove:
        check.ob(f"{tag}: parameters in internal form", F3, lambda: c.parameters(True))
    check.ob(f"{tag}: expansion", F4, c.expand)
    if prove:
        check.ob(f"{tag}: parameters after the expansion", F4, lambda: c.parameters(False))

    def after():
        if "ref" not in box:
            return 0, 0
        ref, ins, seeds = box["ref"]
        f2, _ = c.numbers(c.new)
        n = agree(m, ref, c.evaluate(f2, ins, seeds), "expanded")
        return n, n

    check.replay(f"{tag}: evaluation of the expanded model", F4, after)


for name, observe in variants():
    if observe:
        continue
    whole(name, lambda name=name: M.get(name, 1))
for name in NM.NEAR:
    whole(name, lambda name=name: NM.get(name)[0])


# ------------------------------------------------------------------ random expressions
UN = [at.exp, at.tanh, at.sigmoid, lambda x: -x, lambda x: at.log(1.0 + x**2), lambda x: at.sqrt(1.0 + x**2), at.abs, lambda x: x - 1.0, lambda x: 2.0 * x]
BIN = [lambda a, b: a + b, lambda a, b: a - b, lambda a, b: a * b, lambda a, b: a / (1.5 + at.abs(b)), at.maximum, lambda a, b: at.switch(at.lt(a, b), a - 1.0, b)]


def transposed():
    """Element-wise expressions with constants that are transposed or reshaped by axis order."""
    def mk(name, size, f):
        def build():
            s = RandomStream(3)
            x = s.normal(0.25, 1.0, size=size, name="x")
            return M.Model(name, s, [s.normal(f(x), 1.0, name="Y")])
        return name, build

    col = at.TensorType("float64", (None, 1))("col")
    row = at.TensorType("float64", (1, None))("row")

    def mk2(name, inp, val, f):
        def build():
            s = RandomStream(3)
            x = s.normal(inp, 1.0, name="x")
            return M.Model(name, s, [s.normal(f(x), 1.0, name="Y")], {inp: val})
        return name, build

    c = lambda v: at.as_tensor(v)  # noqa: E731
    yield mk("transposed difference", (3, 2), lambda x: (x - 1.0).T)
    yield mk("transposed column", (3, 1), lambda x: (x - 1.0).T)
    yield mk("difference as a column", (3,), lambda x: (x - 1.0)[:, None])
    yield mk("scaled column", (3,), lambda x: at.exp(c(2.0) * x)[:, None] * np.ones((1, 2)))
    yield mk("comparison in a switch", (2, 3), lambda x: at.switch(at.lt(x, c(0.1)).T, 1.0, 2.0))
    yield mk2("transposed symbolic column", col, np.ones((3, 1)), lambda x: (x - 1.0).T)
    yield mk2("transposed symbolic row", row, np.ones((1, 3)), lambda x: (2.0 * x - 1.0).T)
    yield mk2("symbolic column, axes exchanged twice", col, np.ones((3, 1)), lambda x: ((x - 1.0).T * 2.0).T + 1.0)
    yield mk2("symbolic column in a cube", col, np.ones((3, 1)), lambda x: (1.0 - x).dimshuffle(1, "x", 0) * np.ones((1, 2, 1)))


def random_model(seed):
    R = random.Random(seed)
    s = RandomStream(seed)
    sizes = [2, 3, 4]
    data, pool = {}, []

    def add(v, shape):
        pool.append((v, shape))

    for k in range(R.randint(1, 2)):
        sh = tuple(R.choice(sizes) for _ in range(R.randint(0, 3)))
        v = at.TensorType("float64", (None,) * len(sh))(f"x{k}")
        data[v] = np.random.default_rng([seed, k]).normal(size=sh)
        add(v, sh)
    shv = []
    if R.random() < 0.4:
        sh = (R.choice(sizes),)
        v = aesara.shared(np.random.default_rng([seed, 9]).normal(size=sh), name="shared")
        shv.append(v)
        add(v, sh)
    add(at.as_tensor(R.choice([0.5, -1.25, 2.0])), ())

    def expr(depth):
        if depth == 0 or R.random() < 0.2:
            return R.choice(pool)
        k = R.random()
        if k < 0.3:
            v, sh = expr(depth - 1)
            return R.choice(UN)(v), sh
        if k < 0.55:
            v, sh = expr(depth - 1)
            if len(sh) < 4:
                order = list(range(len(sh)))
                if R.random() < 0.7:
                    R.shuffle(order)
                for _ in range(R.randint(0, 4 - len(sh))):
                    order.insert(R.choice([0, 0, 0, len(order), R.randint(0, len(order))]), "x")
                return v.dimshuffle(order), tuple(1 if o == "x" else sh[o] for o in order)
            return v, sh
        a, sa = expr(depth - 1)
        for _ in range(8):
            b, sb = expr(depth - 1)
            try:
                so = np.broadcast_shapes(sa, sb)
            except ValueError:
                continue
            if len(so) > 4:
                continue
            return R.choice(BIN)(a, b), so
        return a, sa

    for k in range(R.randint(1, 3)):
        mu, sm = expr(3)
        sd, ss = expr(2)
        try:
            so = np.broadcast_shapes(sm, ss)
        except ValueError:
            sd, so = at.as_tensor(1.0), sm
        v = s.normal(at.clip(mu, -20.0, 20.0) if R.random() < 0.3 else at.tanh(mu), 0.3 + at.sigmoid(sd), name=f"v{k}")
        add(v, so)
    mu, _ = expr(3)
    Y = s.normal(at.tanh(mu) + pool[-1][0].sum(), 1.0, name="Y")
    return M.Model(f"random expressions #{seed}", s, [Y], data, shv)


for name, build in transposed():
    whole(name, build)
for k in range(60 if not THOROUGH else 1500):
    whole(f"random expressions #{k}", lambda k=k: random_model(SEED * 100003 + k), prove=False)
check.counts["rewrite patterns"] = n_pat
sys.exit(check.finish())
