"""C13: prior sampling yields independent draws of the joint prior."""
import itertools
import sys

from aevc.core import Check, Known, Refuted, SEED, THOROUGH
import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType
from scipy import stats

import aemcmc
from aemcmc.utils import get_rv_updates
from aevc import graph as g
from aevc import models as M
from aevc.contracts import rv_updates_contract, sample_prior_contract
from aevc.scanview import Loop, scan_nodes
from aevc.terms import Unsupported

check = Check("C13", "proof")
check.assumptions += [
    "Scan runs its body n times, carrying its states from one iteration to the next, and stacks its outputs (contract of aesara.scan); lemma: induction over the iterations",
    "NumPy's generators yield independent streams of variates; a draw's new state is the state after the draw",
    "every random variable has its own generator (RandomStream)",
]
check.trusted += ["aevc/graph.py (congruence of terms); ScanArgs' description of a Scan node", "aevc/pyvc.py: symbolic execution of the Python subset used by the functions under contract (aevc/contracts.py); z3"]
F, FU = "aemcmc.sample.sample_prior", "aemcmc.utils.get_rv_updates"
ZERO = "zero-samples"

rv_updates_contract(check, FU, parts=("values",))
sample_prior_contract(check, F, parts=("values",))


def states(rvs):
    """{generator: state after its draw} of everything `rvs` depend on, and the other shared updates."""
    res = {}
    for n in g.draws(rvs):
        r = n.inputs[0]
        if isinstance(r, SharedVariable):
            res[r] = n.outputs[0]
    return res


def others(rvs):
    return {v: v.default_update for v in g.leaves(rvs) if isinstance(v, SharedVariable) and not isinstance(v.type, RandomType) and v.default_update is not None}


def label(v):
    return v.name or str(v)


class Case:
    def __init__(self, name, srng, rvs, n, inputs=()):
        self.name, self.srng, self.rvs, self.n = name, srng, list(rvs), n
        self.inputs = dict(inputs)
        self.want, self.other = states(self.rvs), others(self.rvs)
        self.out, self.up = aemcmc.sample_prior(srng, n, *self.rvs)
        self.up = dict(self.up)
        self.outs = list(self.out) if isinstance(self.out, (list, tuple)) else [self.out]

    # ------------------------------------------------------------- obligations
    def collection(self):
        """Contract of get_rv_updates."""
        u = dict(get_rv_updates(self.srng, *self.rvs))
        want = {**self.want, **self.other}
        bad = None
        if set(u) - set(want):
            bad = f"{[label(v) for v in set(u) - set(want)]} are updated, on which the requested variables do not depend"
        elif set(want) - set(u):
            bad = f"the generators of {[label(n.outputs[1]) for n in g.draws(self.rvs) if n.inputs[0] in set(want) - set(u)]} are not in the update collection"
        if bad:
            raise Refuted(f"{self.name}: {bad}", {"case": self.name}, replayed="structural fact of the returned collection")
        for v, w in want.items():
            if u[v] is not w and not g.congruent(g.flatten([u[v]]), g.flatten([w]), {}):
                raise Unsupported(f"the update of {label(v)} has another form")
        return "structure of the returned collection"

    def _loop(self):
        sc = {}
        for o in self.outs:
            for s in scan_nodes([o]):
                sc[s] = True
        if len(sc) != 1:
            raise Unsupported(f"{len(sc)} loops")
        return Loop(list(sc)[0])

    def structure(self):
        """The body draws the model once, from the loop's own generators."""
        if len(self.outs) != len(self.rvs):
            raise Unsupported(f"{len(self.outs)} outputs for {len(self.rvs)} variables")
        if isinstance(self.n, int) and self.n == 1:
            return self.unrolled()
        L = self._loop()
        a = L.a
        if L.seqs or L.states:
            raise Unsupported("a loop with sequences or other states")
        n, m = a.n_steps, at.as_tensor(self.n)
        if not (n is m or g.congruent([n], [m], {}) or int_same(n, m)):
            raise Unsupported("the number of steps is not the number of samples")
        carried = {i: o for o, i, _, _ in L.shared}
        outer = {o: (i, nx, fin) for o, i, nx, fin in L.shared}
        for r in self.want:
            if r not in outer:
                raise Unsupported(f"the generator {r} is not carried by the loop")
        leafmap = {i: o for o, i in L.nonseqs}
        leafmap.update(carried)
        leafmap.update({i: o for o, i, _, _ in L.shared})
        byout = {fo: io for io, fo in L.maps}
        for rv, o in zip(self.rvs, self.outs):
            inner = [byout.get(x) for x in strip(o)]
            inner = [x for x in inner if x is not None]
            if len(inner) != 1:
                raise Unsupported("an output that is not the stacked output of the loop")
            same_term(inner[0], rv, leafmap, f"the draw of {label(rv)}")
        for r, nx in self.want.items():
            i, inner_next, fin = outer[r]
            same_term(inner_next, nx, leafmap, f"the next state of the generator of {label(nx.owner.outputs[1])}")
            if self.up.get(r) is not fin:
                raise Unsupported("an update that is not the loop's final state")
        extra = set(self.up) - set(self.want) - set(self.other)
        if extra:
            raise Unsupported(f"further updates {extra}")
        # every generator in the body is carried
        for nd in L.draws():
            if nd.inputs[0] not in carried:
                raise Unsupported("a draw from a generator that is not carried")
        return "congruence"

    def unrolled(self):
        """One sample: the variables with a leading axis of one."""
        for rv, o in zip(self.rvs, self.outs):
            for x in strip(o, True):
                try:
                    same_term(x, rv, {}, f"the draw of {label(rv)}")
                    break
                except Unsupported:
                    pass
            else:
                raise Unsupported(f"the draw of {label(rv)} is not that of the model")
        for r, nx in self.want.items():
            if r not in self.up:
                raise Unsupported(f"no update of {r}")
            same_term(self.up[r], nx, {}, "the next state of a generator")
        return "congruence"

    # ------------------------------------------------------------- bounded replays
    def reseed(self, k):
        for i, n in enumerate(g.draws(self.rvs)):
            if isinstance(n.inputs[0], SharedVariable):
                n.inputs[0].set_value(np.random.default_rng([SEED, k, i]))

    def compiled(self):
        ins = list(self.inputs)
        if isinstance(self.n, int):
            return aesara.function(ins, self.outs, updates=self.up, on_unused_input="ignore"), lambda f, n: f(*self.inputs.values())
        ins.append(self.n)
        return aesara.function(ins, self.outs, updates=self.up, on_unused_input="ignore"), lambda f, n: f(*self.inputs.values(), n)

    def run(self):
        """Shapes, agreement with repeated joint draws, new draws in the next call."""
        f, call = self.compiled()
        up = {**self.want, **self.other}
        ref = aesara.function(list(self.inputs), self.rvs, updates=up, on_unused_input="ignore")
        cnt = [v for v in self.other]
        saved = [v.get_value() for v in cnt]
        N = 0
        for k, n in enumerate([self.n] * 3 if isinstance(self.n, int) else [1, 2, 5, 17]):
            for j in range(20):
                for v, s in zip(cnt, saved):
                    v.set_value(s)
                self.reseed(k + 100 * j)
                try:
                    want = [ref(*self.inputs.values()) for _ in range(2 * n)]
                    break
                except ValueError:
                    continue  # the model itself has invalid parameters for this draw
            else:
                continue
            for v, s in zip(cnt, saved):
                v.set_value(s)
            self.reseed(k + 100 * j)
            first, second = call(f, n), call(f, n)
            for j, rv in enumerate(self.rvs):
                got = np.concatenate([first[j], second[j]]) if n else first[j]
                exp = np.array([w[j] for w in want])
                if first[j].shape != (n,) + exp.shape[1:]:
                    raise Refuted(f"{self.name}: {n} samples of {label(rv)} have shape {first[j].shape} instead of {(n,) + exp.shape[1:]}", {"num_samples": n})
                if exp.dtype.kind == "f" and exp.size and len(np.unique(got)) < len(np.unique(exp)):
                    raise Refuted(f"{self.name}: draws of {label(rv)} are repeated ({len(np.unique(got))} distinct values of {got.size})", {"num_samples": n, "first": first[j].ravel()[:6], "second": second[j].ravel()[:6]})
                if not np.allclose(got, exp, equal_nan=True):
                    # another stream of draws: the laws decide
                    self.laws(f, call, n)
                N += got.size
        for v, s in zip(cnt, saved):
            v.set_value(s)
        return N, N

    def laws(self, f, call, n):
        if len(check.violations) >= 3:
            return  # enough is reported
        self._laws(f, call, n)

    def _laws(self, f, call, n):
        """Two-sample comparison of every element and of the pairs with joint draws."""
        ref = aesara.function(list(self.inputs), self.rvs, updates={**self.want, **self.other}, on_unused_input="ignore")
        self.reseed(50)
        R = 1500
        A = [np.concatenate([np.reshape(x[j], (x[j].shape[0], -1)) for x in (call(f, n) for _ in range(-(-R // max(n, 1))))])[:R] for j in range(len(self.rvs))]
        self.reseed(60)
        B = [np.array([np.ravel(v) for v in col]) for col in zip(*[ref(*self.inputs.values()) for _ in range(R)])]
        A, B = np.concatenate(A, 1), np.concatenate(B, 1)
        if A.shape != B.shape:
            raise Refuted(f"{self.name}: {A.shape[1]} elements instead of {B.shape[1]}", {})
        for c in range(A.shape[1]):
            if stats.ks_2samp(A[:, c], B[:, c]).pvalue < 1e-8:
                raise Refuted(f"{self.name}: element {c} of a draw does not have its distribution", {"num_samples": n})
        ra, rb = stats.spearmanr(np.column_stack([A, B[:, :1]]))[0], stats.spearmanr(np.column_stack([B, B[:, :1]]))[0]
        if np.ndim(ra) and np.nanmax(np.abs(ra[:-1, :-1] - rb[:-1, :-1])) > 6.5 * 1.5 / np.sqrt(R):
            raise Refuted(f"{self.name}: the dependence within one draw differs from the model's", {"num_samples": n})
        lag = [stats.spearmanr(A[:-1, c], A[1:, c])[0] for c in range(A.shape[1])]
        if np.nanmax(np.abs(lag)) > 6.5 / np.sqrt(R):
            raise Refuted(f"{self.name}: consecutive draws are dependent", {"num_samples": n})


def int_same(a, b):
    """Equal integers, up to casts."""
    def core(v):
        while v.owner is not None and (type(v.owner.op).__name__ in ("TensorFromScalar", "ScalarFromTensor") or (hasattr(v.owner.op, "scalar_op") and type(v.owner.op.scalar_op).__name__ in ("Cast", "Identity") or str(v.owner.op).startswith("Elemwise{Cast"))):
            v = v.owner.inputs[0]
        return v
    a, b = core(a), core(b)
    if isinstance(a, Constant) and isinstance(b, Constant):
        return int(a.data) == int(b.data)
    return a is b


def strip(o, deep=False):
    """`o` and what it is a view of."""
    res = [o]
    while o.owner is not None and (type(o.owner.op).__name__ in ("Subtensor", "DimShuffle", "SpecifyShape", "Unbroadcast", "Rebroadcast") or (deep and not isinstance(o.owner.op, RandomVariable))):
        o = o.owner.inputs[0]
        res.append(o)
    return res


def same_term(inner, rv, leafmap, what):
    (x,), (y,) = g.flatten([inner]), g.flatten([rv])
    while x.owner is not None and type(x.owner.op).__name__ == "ViewOp":
        x = x.owner.inputs[0]
    if not g.congruent([x], [y], leafmap):
        raise Unsupported(f"{what} is not that of the model")


# ------------------------------------------------------------------ models and requests
def requests(m):
    """Subsets and orders of the variables."""
    rvs = m.rvs
    yield rvs
    yield rvs[::-1]
    for rv in (rvs[0], rvs[-1]):
        yield [rv]
    if len(rvs) > 2:
        yield [rvs[1], rvs[0]]
        yield rvs[::2]
        yield [rvs[-1], rvs[1]]
    yield [rvs[-1], rvs[-1]]


def special():
    s = RandomStream(11)
    x = s.normal(0.0, 1.0, name="x")
    y = s.normal(x, 1e-9, size=3, name="y")
    z = s.gamma(at.exp(0.2 * x), 1.0, name="z")
    w = s.normal(0.0, 1.0, name="independent")
    yield "chain", s, [[y, x], [x, y], [z, y], [w, y], [y, w, x, z], [y]], {}
    a = at.dvector("a")
    u = s.normal(a, 1.0, name="u")
    v = s.poisson(at.exp(u), name="v")
    yield "with an input", s, [[v, u], [u], [v, w]], {a: np.array([0.1, -0.2, 0.5])}
    yield "deterministic function", s, [[x + 1.0, x], [y.sum() - 3.0 * x]], {}
    e = s.multivariate_normal(at.stack([x, w]), np.eye(2) * 1e-18, name="e")
    yield "multivariate", s, [[e, x, w], [w, e]], {}
    k = RandomStream(12).categorical(np.array([0.2, 0.3, 0.5]), size=4, name="k")
    yield "several streams", s, [[k, x], [x, k]], {}
    # drawn without the stream's methods
    from aesara.tensor.random.basic import normal

    r = aesara.shared(np.random.default_rng(3), borrow=True, name="own_rng")
    nd = normal(x, 1.0, rng=r)
    r.default_update = nd.owner.outputs[0]
    yield "own generator with a default update", s, [[nd, x], [nd]], {}


def run_case(tag, s, rvs, n, inputs):
    try:
        c = Case(tag, s, rvs, n, inputs)
    except Exception as exc:
        check.replay(tag, F, lambda e=exc: (_ for _ in ()).throw(e))
        return
    check.ob(f"{tag}: update collection", FU, c.collection)
    check.ob(f"{tag}: body and states of the loop", F, c.structure)
    check.replay(f"{tag}: repeated joint draws", F, c.run)


cases = 0
for name in M.MODELS:
    m = M.get(name, 1)
    seen = []
    for k, rvs in enumerate(requests(m)):
        if rvs in seen:
            continue
        seen.append(rvs)
        for n in ((at.lscalar("num_samples"),) if k % 3 else (at.lscalar("num_samples"), 4, 1)):
            if not THOROUGH and k > 3 and cases % 2:
                cases += 1
                continue
            cases += 1
            tag = f"{name}: {', '.join(m.label(v) for v in rvs)}; {n if isinstance(n, int) else 'n'} samples"
            run_case(tag, m.srng, rvs, n, {d: v for d, v in m.data.items()})
for name, s, reqs, inputs in special():
    for rvs in reqs:
        for n in (at.lscalar("num_samples"), 7, 1):
            run_case(f"{name}: {', '.join(label(v) if v.name else 'expression' for v in rvs)}; {n if isinstance(n, int) else 'n'} samples", s, rvs, n, inputs)


def agree():
    """A child with almost no noise agrees with its parents at the same position."""
    s = RandomStream(21)
    x = s.normal(0.0, 1.0, size=2, name="x")
    t = s.gamma(2.0, 1.0, name="t")
    y = s.normal(t * x, 1e-9, name="y")
    n = 0
    for rvs in itertools.permutations([x, t, y]):
        out, up = aemcmc.sample_prior(s, 50, *rvs)
        r = dict(zip(rvs, aesara.function([], out, updates=up)()))
        if not np.allclose(r[y], r[t][:, None] * r[x], atol=1e-6):
            raise Refuted("a variable does not agree with its parents at the same position", {"order": [v.name for v in rvs]})
        n += 50
    return n, n


check.replay("children agree with their parents", F, agree)


def zero():
    s = RandomStream(22)
    x = s.normal(0.0, 1.0, size=2, name="x")
    k = at.lscalar("k")
    out, up = aemcmc.sample_prior(s, k, x)
    f = aesara.function([k], out, updates=up)
    a = f(0)
    if a.shape[0] != 0:
        raise Refuted(f"zero samples have shape {a.shape}", {})
    try:
        b = f(3)
    except AttributeError as exc:
        if "NoneType" in str(exc):
            raise Known(ZERO, "the call after one that asks for zero samples fails: the generators are lost")
        raise
    if b.shape != (3, 2):
        raise Refuted(f"three samples after zero samples have shape {b.shape}", {})
    return 1, 1


check.replay("zero samples", F, zero)


def many():
    """A large number of samples: as many as asked for, none of them repeated."""
    s = RandomStream(23)
    x = s.normal(0.0, 1.0, name="x")
    y = s.normal(x, 1e-9, name="y")
    k = at.lscalar("k")
    out, up = aemcmc.sample_prior(s, k, x, y)
    f = aesara.function([k], out, updates=up)
    n = 40000
    a, b = f(n)
    if a.shape != (n,) or b.shape != (n,):
        raise Refuted(f"{n} samples have the shapes {a.shape} and {b.shape}", {"num_samples": n})
    if np.unique(a).size != n or not np.allclose(a, b, atol=1e-6):
        raise Refuted(f"{n} samples repeat values, or children disagree with their parents", {"num_samples": n})
    if abs(a.mean()) > 8 / np.sqrt(n) or abs(np.mean(a * a) - 1) > 8 * np.sqrt(2 / n):
        raise Refuted(f"{n} samples of a standard normal have mean {a.mean()}, mean square {np.mean(a * a)}", {"num_samples": n})
    c, _ = f(n)
    if np.intersect1d(a, c).size:
        raise Refuted("two evaluations share values", {"num_samples": n})
    return 2, 2 * n


check.replay("many samples", F, many)
sys.exit(check.finish())
