"""Whole samplers of the real code, with the external NUTS implementation behind its contract.

AeHMC's kernel is an external callee.  Its contract: `new_kernel(srng, logprob_fn)` returns a
function of a chain state `(q, -logprob_fn(q), grad)`, a step size and an inverse mass matrix
that yields a new state leaving `exp(logprob_fn)` invariant.  `stubbed()` replaces it by the
weakest callee with this interface: it records what it was given and returns an arbitrary
new position (a free variable), so everything proved about the caller holds for every result
the kernel could return.
"""
import contextlib

import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, io_toposort
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable

from . import graph as g
from .guard import limit


class Call:
    """What the caller passed to the NUTS kernel, and what it got back."""

    def __init__(self, srng, logprob_fn):
        self.srng, self.logprob_fn = srng, logprob_fn
        self.q = self.step_size = self.inverse_mass = self.q_new = None
        self.state = None
        self.pieces = []


@contextlib.contextmanager
def stubbed():
    import aehmc.nuts as hn

    import aemcmc.nuts as an

    calls = []
    states = {}

    def new_state(q, logprob_fn):
        pe, gr = at.dscalar("potential_energy"), at.dvector("potential_energy_grad")
        states[id(q)] = (q, logprob_fn, pe, gr)
        return q, pe, gr

    def new_kernel(srng, logprob_fn, *args, **kwargs):
        c = Call(srng, logprob_fn)
        c.options = (args, kwargs)
        calls.append(c)

        def kernel(q, pe, gr, step_size, inverse_mass):
            c.q, c.step_size, c.inverse_mass = q, step_size, inverse_mass
            st = states.get(id(q))
            c.state_ok = st is not None and st[2] is pe and st[3] is gr
            c.state_fn = st[1] if st else None
            c.q_new = at.TensorType(q.type.dtype, q.type.shape)("q_new")
            # Like the real kernel: one draw of the given stream per call, further draws with
            # generators of their own that are advanced by the returned updates
            momentum = srng.normal(0.0, 1.0, size=q.shape, name="momentum")
            rng = aesara.shared(np.random.default_rng(len(calls)), name="nuts_rng")
            c.kernel_rngs = [momentum.owner.inputs[0], rng]
            rng_next, u = at.random.uniform.make_node(rng, None, None, 0.0, 1.0).outputs
            c.q_probe = at.TensorType(q.type.dtype, q.type.shape)("q_probe")
            c.logp = logprob_fn(c.q_probe)
            out = _Opaque()(c.q_new, q, step_size, inverse_mass, momentum, u, c.q_probe, c.logp)
            c.out = out
            c.updates = {rng: rng_next}
            return (out, pe, gr, at.constant(1.0), at.constant(1), at.constant(False), at.constant(False)), dict(c.updates)

        return kernel

    saved = []
    for mod in (hn, an):
        for nm, f in (("new_kernel", new_kernel), ("new_state", new_state)):
            if hasattr(mod, nm):
                saved.append((mod, nm, getattr(mod, nm)))
                setattr(mod, nm, f)
    try:
        yield calls
    finally:
        for mod, nm, f in saved:
            setattr(mod, nm, f)


class _Opaque(aesara.graph.op.Op):
    """Returns its first argument, but depends on all of them."""

    __props__ = ()

    def make_node(self, *inputs):
        return aesara.graph.basic.Apply(self, list(inputs), [inputs[0].type()])

    def infer_shape(self, fgraph, node, shapes):
        return [shapes[1]]

    def perform(self, node, inputs, outs):
        outs[0][0] = np.array(inputs[0], copy=True)


class Built:
    """A sampler built by the real code for a model."""

    def __init__(self, m, srng=None, stub=True):
        from aemcmc.basic import construct_sampler

        self.m = m
        self.srng = srng or m.srng
        self.calls = []
        with limit(180, f"construct_sampler on {m.name}"):
            if stub:
                with stubbed() as calls:
                    self.sampler, self.init = construct_sampler(m.obs, self.srng)
                self.calls = calls
            else:
                self.sampler, self.init = construct_sampler(m.obs, self.srng)
        self.steps = self.sampler.sample_steps
        self.latents = [rv for rv in self.steps]

    # ---------------------------------------------------------------- structure
    def kernel(self, rv):
        o = self.steps[rv].owner
        return type(o.op).__name__ if o is not None else None

    def groups(self):
        """[[rvs updated together by one step], ...] in sweep order."""
        res = {}
        for rv, st in self.steps.items():
            res.setdefault(st.owner, []).append(rv)
        return list(res.values())

    def parameters(self):
        return [p for ps in (self.sampler.parameters or {}).values() for p in ps]

    def free_inputs(self):
        return [c.q_new for c in self.calls]

    def obs_inputs(self):
        return {v: rv for rv, v in self.m.obs.items() if not isinstance(v, (Constant, SharedVariable)) and v.owner is None}

    # ---------------------------------------------------------------- flattened graph
    def view(self):
        if not hasattr(self, "_view"):
            self._view = View(self)
        return self._view

    def inputs(self):
        """All inputs of the compiled sweep (the free NUTS positions of the stub included)."""
        res = list(self.m.data) + list(self.obs_inputs()) + list(self.init.values()) + self.parameters()
        return list(dict.fromkeys(res))

    def stub_inputs(self):
        return [v for c in self.calls for v in (c.q_new, c.q_probe)]

    def q_size(self, vals):
        """Number of unconstrained coordinates of the NUTS group."""
        n = 0
        for rv in self.steps:
            if self.kernel(rv) == "NUTSKernel":
                k = np.size(vals[rv])
                if rv.owner.op.name == "dirichlet":
                    k -= int(np.prod(np.shape(vals[rv])[:-1]))
                n += k
        return n

    def env(self, vals, step_size=0.05):
        """{input: value} of one sweep from the values `vals`."""
        e = dict(self.m.data)
        for v, rv in self.obs_inputs().items():
            e[v] = np.asarray(vals[rv], dtype=v.type.dtype)
        for rv, v in self.init.items():
            e[v] = np.asarray(vals[rv], dtype=v.type.dtype)
        for p in self.parameters():
            e[p] = np.asarray(step_size, dtype=p.type.dtype) if p.type.ndim == 0 else np.ones(self.q_size(vals), dtype=p.type.dtype)
        return e


class View:
    """The whole sweep as one graph in which equal computations are one node."""

    def __init__(self, b):
        self.b = b
        self.rvs = list(b.steps)
        ups = dict(b.sampler.updates or {})
        self.update_keys = list(ups)
        outs = g.cons(list(b.steps.values()) + list(ups.values()))
        self.step = dict(zip(self.rvs, outs))
        self.update = dict(zip(self.update_keys, outs[len(self.rvs):]))
        self.groups = b.groups()
        self.order = {rv: i for i, gr in enumerate(self.groups) for rv in gr}

    def nuts(self):
        """The kernel calls in this graph: {name: variable} of what each one was given."""
        res = []
        for n in io_toposort([], list(self.step.values())):
            if isinstance(n.op, _Opaque):
                i = n.inputs
                res.append(dict(q_new=i[0], q=i[1], step_size=i[2], inverse_mass=i[3], momentum=i[4], q_probe=i[6], logp=i[7], node=n))
        return res

    def cut(self, group, outputs):
        """`outputs` with the steps of all the variables outside `group` replaced by fresh placeholders.

        Returns the outputs and {rv: placeholder}.
        """
        ph = {rv: rv.type(f"new_{i}") for i, rv in enumerate(self.rvs) if rv not in group}
        subst = {self.step[rv]: p for rv, p in ph.items()}
        return g.cut(outputs, subst), ph
