"""The gradient-based step of one model: its pieces and the numeric comparison with the oracle."""
import aesara
import numpy as np
from aesara.graph.basic import io_toposort

from . import graph as g
from . import models as M
from . import oracle as O
from . import sampler as S
from .core import SEED, Refuted


class Case:
    def __init__(self, name, observe=(), model=None):
        self.name = name + (f"|observed {list(observe)}" if observe else "")
        self.m = model or M.get(name, 1, observe)
        self.b = S.Built(self.m)
        self.v = self.b.view()
        self.calls = self.v.nuts()

    def group(self, call):
        """The variables whose steps depend on the position the kernel returned."""
        return [rv for rv in self.v.rvs if call["q_new"] in g.leaves([self.v.step[rv]]) and self.b.kernel(rv) == "NUTSKernel"] or [
            rv for rv in self.v.rvs if call["q_new"] in g.leaves([self.v.step[rv]])]

    # ------------------------------------------------------------ compiled pieces
    def compile(self, call):
        if "fn" in call:
            return call["fn"]
        gr = self.group(call)
        outs, ph = self.v.cut(gr, [self.v.step[rv] for rv in gr] + [call["q"], call["logp"]])
        # The opaque kernel returns q_new
        sub = {call["node"].outputs[0]: call["q_new"]}
        (node,) = [n for n in io_toposort([], outs) if isinstance(n.op, S._Opaque)]
        xs, q, logp = g.cut(outs[: len(gr)], {node.outputs[0]: call["q_new"]}), outs[-2], outs[-1]
        ins = self.b.inputs() + [p for p in ph.values()]
        call["ins"], call["ph"], call["gr"] = ins, ph, gr
        call["fn"] = (
            aesara.function(ins + [call["q_new"]], xs, on_unused_input="ignore"),
            aesara.function(ins, q, on_unused_input="ignore"),
            aesara.function(ins + [call["q_probe"]], logp, on_unused_input="ignore"),
        )
        return call["fn"]

    def args(self, call, vals, stale):
        """Inputs: the newest values are `vals`; replaced (stale) current values are `stale`."""
        e = self.b.env(vals)
        for rv, p in self.b.init.items():
            if rv not in call["gr"]:
                e[p] = np.asarray(stale[rv], dtype=p.type.dtype)
        ph = {p: np.asarray(vals[rv], dtype=p.type.dtype) for rv, p in call["ph"].items()}
        return [e[i] if i in e else ph[i] for i in call["ins"]]


def free_coords(rv, x):
    """Coordinates that parametrise the support of `x`."""
    x = np.asarray(x)
    if rv.owner.op.name == "dirichlet":
        x = x[..., :-1]
    return x.ravel()


def logdet(xfn, a, gr, q, h=1e-5):
    n = len(q)
    J = np.zeros((n, n))
    for k in range(n):
        d = np.zeros(n)
        d[k] = h * max(1.0, abs(q[k]))
        hi = np.concatenate([free_coords(rv, x) for rv, x in zip(gr, xfn(*a, q + d))])
        lo = np.concatenate([free_coords(rv, x) for rv, x in zip(gr, xfn(*a, q - d))])
        J[:, k] = (hi - lo) / (2 * d[k])
    s, ld = np.linalg.slogdet(J)
    if s == 0:
        raise Refuted("the step's values are not a one-to-one function of the kernel's position", {"q": q.tolist()})
    return ld


def numeric(case, npoints, nstates):
    m, b = case.m, case.b
    joint = O.Joint(m)
    n = 0
    for call in case.calls:
        xfn, qfn, lfn = case.compile(call)
        gr = call["gr"]
        for s in range(nstates):
            vals = m.prior_values(100 * SEED + s)
            stale = m.prior_values(100 * SEED + s + 5000)
            a = case.args(call, vals, stale)
            q0 = np.asarray(qfn(*a), dtype=float)
            back = dict(zip(gr, xfn(*a, q0)))
            for rv in gr:
                if np.shape(back[rv]) != np.shape(vals[rv]) or not np.allclose(back[rv], vals[rv], rtol=1e-6, atol=1e-8):
                    raise Refuted(
                        f"{case.name}: with the kernel returning its initial position, {m.label(rv)} is {np.asarray(back[rv]).tolist()} instead of its current value {np.asarray(vals[rv]).tolist()}",
                        {"model": case.name, "values": {m.label(k): np.asarray(v).tolist() for k, v in vals.items()}})
                n += 1
            rng = np.random.default_rng([SEED, s, 5])
            # also from values far away from the prior's bulk (as long as they are representable)
            for far in (8.0, 40.0):
                x = dict(zip(gr, xfn(*a, q0 + far * rng.normal(size=q0.shape))))
                if not all(np.all(np.isfinite(v)) for v in x.values()):
                    continue
                with np.errstate(all="ignore"):
                    a2 = case.args(call, {**vals, **x}, stale)
                    q2 = np.asarray(qfn(*a2), dtype=float)
                    y = dict(zip(gr, xfn(*a2, q2))) if np.all(np.isfinite(q2)) else {}
                for rv in y:
                    if not np.allclose(y[rv], x[rv], rtol=1e-6, atol=1e-8):
                        raise Refuted(
                            f"{case.name}: with the kernel returning its initial position, {m.label(rv)} is {np.asarray(y[rv]).tolist()} instead of its current value {np.asarray(x[rv]).tolist()}",
                            {"model": case.name, "values": {m.label(k): np.asarray(v).tolist() for k, v in {**vals, **x}.items()}})
                    n += 1
            ref = None
            for k in range(npoints):
                q = q0 + (0 if k == 0 else 1) * rng.normal(size=q0.shape) * 0.5
                x = dict(vals)
                x.update(zip(gr, xfn(*a, q)))
                want = joint(x)
                if not np.isfinite(want):
                    raise Refuted(f"{case.name}: the values at a kernel position are outside of the model's support",
                                  {"q": q.tolist(), "x": {m.label(r): np.asarray(x[r]).tolist() for r in gr}})
                want += logdet(xfn, a, gr, q)
                got = float(lfn(*a, q))
                if ref is None:
                    ref = got - want
                if not np.isclose(got - want, ref, rtol=0, atol=1e-5 * max(1.0, abs(got), abs(want))):
                    raise Refuted(
                        f"{case.name}: the step's log-density differs from the model's by {got - want} at one position and by {ref} at another",
                        {"model": case.name, "q0": q0.tolist(), "q": q.tolist(),
                         "values": {m.label(r): np.asarray(v).tolist() for r, v in vals.items()}})
                n += 1
    return n, n
