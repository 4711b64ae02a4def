"""C12: repeated sweeps use fresh randomness for every step."""
import hashlib
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH
import aesara
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, io_toposort
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType

from aevc import graph as g
from aevc import models as M
from aevc import sampler as S
from aevc.scanview import Loop
from aevc.sweeps import build_all, rng_leaves
from aevc.terms import Unsupported

check = Check("C12", "proof")
check.assumptions += [
    "NumPy: a generator's successive states give independent streams, and a draw leaves its generator in a new state",
    "the external NUTS kernel's own generators behave as its contract says: each is advanced by the updates it returns",
]
check.trusted += [
    "Aesara's inlining of `OpFromGraph`s makes the recorded new states the updates of the generators (exercised by the replays)",
    "aevc/graph.py: flattening and sharing of Aesara graphs (one node per random draw)",
]
F = "aemcmc.basic.construct_sampler"


class Chains:
    """Every generator of a sweep: the draws that use it in order, and its update."""

    def __init__(self, sw):
        self.sw = sw
        b = sw.b
        ups = dict(b.sampler.updates or {})
        stream = dict(b.srng.updates())
        inlined = []
        flat = g.flatten(list(b.steps.values()) + list(ups.values()), None, inlined)
        rngs = rng_leaves(flat)
        # (generator, new state, origin): inlined steps define their generators' updates,
        # whatever else is passed; otherwise the returned, the stream's and the default ones
        cand = [(r, u, "of the step itself") for r, u in inlined]
        have = {r for r, _ in inlined}
        for r, u in ups.items():
            cand.append((r, u, "returned updates"))
            have.add(r)
        for r in rngs:
            if r not in have:
                d = getattr(r, "default_update", None)
                if d is not None and type(d.owner.op).__name__ == "UpdatePlaceholder":
                    d = None
                if r in stream:
                    cand.append((r, stream[r], "stream's updates"))
                if d is None:
                    raise Refuted(f"{sw.tag}: a generator used by a step has no update when only the returned updates are used", {"model": sw.tag, "steps": self.who(r)}, replayed="structural")
                cand.append((r, d, "default update"))
        outs = g.cons(list(b.steps.values()) + [u for _, u, _ in cand])
        self.steps = dict(zip(b.steps, outs))
        self.cand = [(r, o, src) for (r, _, src), o in zip(cand, outs[len(b.steps):])]
        self.rngs = rngs
        self.users = {}
        for n in io_toposort([], outs):
            for i, v in enumerate(n.inputs):
                if isinstance(v.type, RandomType) and not isinstance(v, Constant):
                    self.users.setdefault(v, []).append((n, i))

    def who(self, r):
        return [self.sw.m.label(rv) for rv, s in self.sw.v.step.items() if r in g.leaves([s])]

    def next_state(self, n, i):
        if isinstance(n.op, RandomVariable):
            return n.outputs[0]
        if type(n.op).__name__ == "Scan":
            lp = Loop(n)
            lp.check_generators()
            for outer_in, inner_in, inner_out, outer_out in lp.shared:
                if n.inputs[i] is outer_in:
                    return outer_out
            raise Refuted(f"{self.sw.tag}: a loop draws with a generator it does not advance", {"model": self.sw.tag}, replayed="structural")
        raise Unsupported(f"a generator is passed to {n.op}")


def advanced(sw):
    c = Chains(sw)
    for r in c.rngs:
        v = r
        k = 0
        while v in c.users:
            us = c.users[v]
            if len(us) > 1:
                raise Refuted(f"{sw.tag}: {len(us)} different draws ({[str(n.op) for n, _ in us]}) use the same generator state", {"model": sw.tag, "steps": c.who(r)}, replayed="structural")
            v = c.next_state(*us[0])
            k += 1
        for r2, u, src in c.cand:
            if r2 is not r or not k or u is v:
                continue
            if u is r:
                raise Refuted(f"{sw.tag}: the generator of a step of {c.who(r)} is not advanced ({src})", {"model": sw.tag}, replayed="structural")
            raise Refuted(f"{sw.tag}: a generator used by {c.who(r)} is not updated to the state the step leaves it in ({src})", {"model": sw.tag, "update": str(u.owner)}, replayed="structural")
    return "data-flow (generator chains)"


def keys(sw):
    for r in sw.v.update_keys:
        u = sw.v.update[r]
        if not isinstance(r, SharedVariable):
            raise Refuted(f"{sw.tag}: an update is stored under {r}, which is not a shared variable", {"model": sw.tag}, replayed="structural")
        if r not in g.leaves([u]):
            raise Refuted(f"{sw.tag}: the update stored under a generator does not depend on that generator", {"model": sw.tag, "update": str(u.owner)}, replayed="structural")
        if u.type != r.type:
            raise Refuted(f"{sw.tag}: the update of {r} has another type", {"model": sw.tag}, replayed="structural")
    return "data-flow (generator chains)"


def separate(sw):
    """No two steps draw with the same generator, and no two variables share a draw."""
    seen, drawn = {}, {}
    containers = {}
    for k, gr in enumerate(sw.v.groups):
        outs = sw.cut(k)[0]
        for rv, o in zip(gr, outs):
            if o.owner is not None and isinstance(o.owner.op, RandomVariable) and o in drawn:
                raise Refuted(f"{sw.tag}: {sw.m.label(rv)} and {sw.m.label(drawn[o])} are updated by the same draw", {"model": sw.tag}, replayed="structural")
            drawn[o] = rv
        for r in rng_leaves(outs):
            key = id(r.container) if isinstance(r, SharedVariable) else id(r)
            if key in containers and containers[key] != k:
                raise Refuted(f"{sw.tag}: the steps of {[sw.m.label(x) for x in gr]} and {[sw.m.label(x) for x in sw.v.groups[containers[key]]]} use the same generator", {"model": sw.tag}, replayed="structural")
            containers[key] = k
    return "data-flow (generator chains)"


class Monitor:
    """Records (operator, generator state, parameters) of every draw."""

    def __enter__(self):
        self.log = []
        self.old = RandomVariable.perform
        log, old = self.log, self.old

        def perform(op, node, inputs, outputs):
            st = hashlib.sha1(repr(inputs[0].bit_generator.state).encode()).hexdigest()
            old(op, node, inputs, outputs)
            par = hashlib.sha1(b"|".join(np.asarray(x).tobytes() for x in inputs[1:])).hexdigest()
            log.append((st, str(op), par, np.asarray(outputs[1][0]).size))

        RandomVariable.perform = perform
        return self

    def __exit__(self, *a):
        RandomVariable.perform = self.old


def run(tag, b, m, stub, sweeps, with_stream):
    ups = dict(b.sampler.updates or {})
    if with_stream:
        ups = {**dict(b.srng.updates()), **ups}
    ins = b.inputs() + b.stub_inputs()
    with Monitor() as mon:
        f = aesara.function(ins, list(b.steps.values()), updates=ups, on_unused_input="ignore")
        vals = m.prior_values(SEED)
        seen = {}
        cnt = 0
        states = {}
        del mon.log[:]
        for s in range(sweeps):
            e = b.env(vals, 1e-3)
            q = np.random.default_rng(s).normal(size=b.q_size(vals)) if b.stub_inputs() else None
            e.update({x: q for x in b.stub_inputs()})
            f(*[e[i] for i in ins])
            log, here = list(mon.log), {}
            del mon.log[:]
            for st, op, par, size in log:
                if size == 0:
                    continue
                if st in seen:
                    raise Refuted(f"{tag}: sweep {s} draws {op} from a generator state that sweep {seen[st]} already used", {"model": tag, "sweeps": [seen[st], s]})
                if here.setdefault(st, (op, par)) != (op, par):
                    raise Refuted(f"{tag}: in one sweep, {op} and {here[st][0]} are drawn from the same generator state", {"model": tag, "sweep": s})
                cnt += 1
            seen.update({st: s for st in here})
    return cnt, len(seen)


def real(name):
    m = M.get(name, 1)
    b = S.Built(m, stub=False)
    return run(name + " (real kernel)", b, m, False, 2, False)


def step_functions():
    """The user-level steps, with the updates they return: (name, inputs, outputs, updates, values)."""
    import aesara.tensor as at
    from aesara.tensor.random import RandomStream

    from aemcmc import ffbs, gibbs

    rng = np.random.default_rng(SEED)
    g0, Gs, ll = at.vector("g0"), at.tensor3("Gs"), at.matrix("ll")
    for N in (1, 2, 3, 4, 7):
        srng = RandomStream(5)
        out, ups = ffbs.ffbs_step(g0, Gs, ll, srng)
        v = [np.ones(3) / 3, rng.dirichlet(np.ones(3), size=(N, 3)), rng.normal(size=(3, N))]
        yield f"ffbs_step, {N} positions", "aemcmc.ffbs.ffbs_step", [g0, Gs, ll], [out], dict(ups), v
    h, y = at.scalar("h"), at.lvector("y")
    for yv in ([2], [1, 4], [3, 0, 5]):
        srng = RandomStream(5)
        out, ups = gibbs.sample_CRT(srng, y, h)
        yield f"sample_CRT, counts {yv}", "aemcmc.gibbs.sample_CRT", [y, h], [out], dict(ups), [np.array(yv), 1.5]
        p, a, b = at.vector("p"), at.scalar("a"), at.scalar("b")
        out, ups = gibbs.nbinom_dispersion_posterior(RandomStream(6), h, p, a, b, y)
        yield f"nbinom_dispersion_posterior, counts {yv}", "aemcmc.gibbs.nbinom_dispersion_posterior", [h, p, a, b, y], [out], dict(ups), [1.5, np.full(len(yv), 0.4), 2.0, 1.0, np.array(yv)]
    beta, X, yb, sd = at.vector("beta"), at.matrix("X"), at.lvector("y"), at.scalar("sd")
    for n, q in ((3, 2), (2, 3)):
        v = [rng.normal(size=q), rng.normal(size=(n, q)), rng.integers(0, 2, size=n), 1.0]
        yield f"bern_normal_posterior {(n, q)}", "aemcmc.gibbs.bern_normal_posterior", [beta, X, yb, sd], [gibbs.bern_normal_posterior(RandomStream(7), beta, sd, X, yb)], {}, v
        yield f"nbinom_normal_posterior {(n, q)}", "aemcmc.gibbs.nbinom_normal_posterior", [beta, X, yb, sd], [gibbs.nbinom_normal_posterior(RandomStream(7), beta, sd, X, at.as_tensor(2.0), yb)], {}, v
        t2 = at.scalar("t2")
        yield f"horseshoe_posterior of {q}", "aemcmc.gibbs.horseshoe_posterior", [beta, sd, t2], list(gibbs.horseshoe_posterior(RandomStream(8), beta, at.as_tensor(1.0), sd * at.ones_like(beta), t2)), {}, [v[0], 1.0, 0.5]


def repeated(name, ins, outs, ups, vals):
    with Monitor() as mon:
        f = aesara.function(ins, outs, updates=ups, on_unused_input="ignore")
        del mon.log[:]
        seen, cnt = {}, 0
        for s in range(4):
            f(*vals)
            log = list(mon.log)
            del mon.log[:]
            here = {}
            for st, op, par, size in log:
                if size == 0:
                    continue
                if st in seen:
                    raise Refuted(f"{name}: call {s} draws {op} from a generator state that call {seen[st]} already used", {"inputs": vals, "calls": [seen[st], s]})
                if here.setdefault(st, (op, par)) != (op, par):
                    raise Refuted(f"{name}: in one call, {op} and {here[st][0]} are drawn from the same generator state", {"inputs": vals})
                cnt += 1
            if not here:
                raise Refuted(f"{name}: call {s} draws nothing", {"inputs": vals})
            seen.update({st: s for st in here})
    return cnt, len(seen)


try:
    functions = list(step_functions())
except Exception as e:  # a function has another interface; the samplers below are built from them
    check.skip("generator states of the step functions", F, f"{type(e).__name__}: {e}")
    functions = []
for nm, fn_, ins_, outs_, ups_, vals_ in functions:
    check.replay(f"{nm}: generator states of repeated calls", fn_, lambda: repeated(nm, ins_, outs_, ups_, vals_))
for sw in build_all(check, F):
    check.ob(f"{sw.tag}: every generator is advanced to the state its draws leave it in", F, lambda: advanced(sw))
    check.ob(f"{sw.tag}: updates are stored under their own generators", F, lambda: keys(sw))
    check.ob(f"{sw.tag}: no two steps share a generator or a draw", F, lambda: separate(sw))
    if not sw.observe or THOROUGH:
        check.replay(f"{sw.tag}: generator states of repeated sweeps", F, lambda: run(sw.tag, sw.b, sw.m, True, 6 if THOROUGH else 3, False))
        if sw.name in ("gamma_poisson_hyper", "nb_horseshoe_dispersion", "mixed_groups") or THOROUGH:
            check.replay(f"{sw.tag}: generator states with the stream's own updates", F, lambda: run(sw.tag, sw.b, sw.m, True, 3, True))
for name in ["gamma_poisson_hyper"] + (["horseshoe_normal", "same_shapes"] if THOROUGH else []):
    check.replay(f"{name}: generator states of the real kernel", F, lambda: real(name))

sys.exit(check.finish())
