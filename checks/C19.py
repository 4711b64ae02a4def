"""C19: samplers are reproducible from the seed."""
import json
import os
import subprocess
import sys
import tempfile

from aevc.core import Check, Refuted, SEED, THOROUGH, ROOT
import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.tensor.random.type import RandomType

from aevc import graph as g
from aevc import models as M
from aevc import sampler as S
from aevc.scanview import scan_nodes
from aevc.sweeps import rng_leaves, variants
from aevc.terms import Unsupported

check = Check("C19", "other")
check.assumptions += [
    "independence of the process (hash seed) is explored, not proved: the digest is compared over a bounded number of hash seeds and models",
    "Aesara's compilation of equal graphs is deterministic up to floating-point rounding (results are compared exactly in the replays)",
    "the external NUTS kernel is replaced by a callee that returns an arbitrary position, except in the replays labelled `real kernel`",
]
check.trusted += ["aevc/graph.py: congruence of Aesara graphs"]
F = "aemcmc.basic.construct_sampler"


def state(r):
    return repr(r.get_value(borrow=True).bit_generator.state)


def leafmap(m, n, b1, b2):
    mp = {}
    for a, b in zip(m.rvs, n.rvs):
        if a in b1.init:
            mp[b1.init[a]] = b2.init[b]
        else:
            mp.update(zip(g.leaves([m.obs[a]]), g.leaves([n.obs[b]])))
    mp.update(zip(m.data, n.data))
    mp.update(zip(m.shared, n.shared))
    mp.update(zip(b1.parameters(), b2.parameters()))
    mp.update(zip(b1.stub_inputs(), b2.stub_inputs()))
    return mp


def same(name, observe):
    """Equal seeds: equal terms, with generators in equal initial states."""
    m, n = M.get(name, 5, observe), M.get(name, 5, observe)
    b1, b2 = S.Built(m), S.Built(n)
    tag = f"{name}{list(observe) or ''}"
    d1, d2 = ([(x.rvs.index(r), b.kernel(r)) for r in b.steps] for x, b in ((m, b1), (n, b2)))
    if d1 != d2:
        raise Refuted(f"{tag}: two samplers built from equal seeds have the steps {d1} and {d2}", {"model": tag}, replayed="structural")
    p1, p2 = ([(p.name, str(p.type)) for p in b.parameters()] for b in (b1, b2))
    if p1 != p2:
        raise Refuted(f"{tag}: two samplers built from equal seeds have the parameters {p1} and {p2}", {"model": tag}, replayed="structural")
    v1, v2 = b1.view(), b2.view()
    rngs, why = {}, []
    if len(v1.update) != len(v2.update) or not g.congruent(
            [v1.step[r] for r in b1.steps] + list(v1.update.values()), [v2.step[r] for r in b2.steps] + list(v2.update.values()), leafmap(m, n, b1, b2), rngs, why):
        raise Unsupported(f"the terms of the two samplers differ: {why[:1]}")
    for r, r2 in rngs.items():
        if isinstance(r, SharedVariable) and state(r) != state(r2):
            raise Refuted(f"{tag}: a generator starts in different states in two samplers built from equal seeds", {"model": tag}, replayed="structural")
    return "congruence (equal terms, equal initial states)"


def one_stream(name, observe, stub=True):
    """Every generator belongs to the given stream, and another seed gives other generators."""
    m = M.get(name, 5, observe)
    b = S.Built(m, stub=stub)
    tag = f"{name}{list(observe) or ''}"
    own = {r for r, _ in b.srng.updates()} | {r for c in b.calls for r in c.kernel_rngs}
    v = b.view()
    for r in rng_leaves(list(v.step.values()) + list(v.update.values())):
        if r not in own:
            raise Refuted(f"{tag}: a step of {[m.label(x) for x in v.rvs if r in g.leaves([v.step[x]])]} uses a generator that does not come from the given stream", {"model": tag}, replayed="structural")
    return "data-flow (all generators)"


def other_stream():
    """The sampler draws from the stream it is given, which need not be the model's."""
    from aesara.tensor.random import RandomStream

    n = 0
    for name in ["gamma_poisson_hyper", "nb_horseshoe_dispersion", "bernoulli_horseshoe", "mixed_groups"]:
        m = M.get(name, 5)
        before = len(m.srng.updates())
        s = RandomStream(99)
        b = S.Built(m, srng=s)
        own = {r for r, _ in s.updates()} | {r for c in b.calls for r in c.kernel_rngs}
        v = b.view()
        for r in rng_leaves(list(v.step.values())):
            if r not in own:
                raise Refuted(f"{name}: with a stream of its own, the sampler uses a generator of another stream", {"model": name})
            n += 1
        if len(m.srng.updates()) != before:
            raise Refuted(f"{name}: building a sampler with a stream of its own adds generators to the model's stream", {"model": name})
    return n, n


def global_state():
    """NumPy's global generator is neither read nor advanced."""
    np.random.seed(1)
    a = np.random.get_state()[1].tolist(), np.random.get_state()[2]
    for name in ["nb_horseshoe_dispersion", "mixed_groups", "bernoulli_regression"]:
        from aevc.c19worker import digest

        x = digest(M.get(name, 5))
        b = np.random.get_state()[1].tolist(), np.random.get_state()[2]
        if a != b:
            raise Refuted(f"{name}: NumPy's global generator is advanced", {"model": name})
        np.random.seed(2)
        y = digest(M.get(name, 5))
        if x != y:
            raise Refuted(f"{name}: the draws depend on NumPy's global generator", {"model": name})
        np.random.seed(1)
    return 3, 3


NAMES = list(M.MODELS)
GEN = list(range(SEED * 100, SEED * 100 + (12 if THOROUGH else 4)))
REAL = ["same_shapes"] if not THOROUGH else ["same_shapes", "transforms_zoo", "horseshoe_normal"]
HASH = ["0", "1", "2", "12345"] if not THOROUGH else ["0"] + [str(7919 * i + 1) for i in range(11)]
results = {}


def processes():
    """Digests of the same samplers from processes with different hash seeds."""
    ps = []
    for k, h in enumerate(HASH):
        d = os.path.join(os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(prefix="/tmp/aevc."), f"c19_{k}")
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, PYTHONHASHSEED=h, PYTHONPATH=ROOT)
        env["AESARA_FLAGS"] = env.get("AESARA_FLAGS", "").replace("/cc,", f"/cc{k},")
        out = os.path.join(d, "out.json")
        spec = json.dumps([NAMES, GEN, REAL if k < 2 or THOROUGH else []])
        ps.append((h, out, subprocess.Popen([sys.executable, "-m", "aevc.c19worker", spec, out], cwd=ROOT, env=env,
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for h, out, p in ps:
        _, err = p.communicate(timeout=800)
        if p.returncode:
            raise RuntimeError(err[-1500:])
        results[h] = json.load(open(out))


def compare(name):
    ref, n = None, 0
    for h in HASH:
        d = results.get(h, {}).get(name)
        if d is None:
            continue
        n += 1
        if ref is None:
            ref, rh = d, h
            continue
        for k in d:
            if d[k] != ref[k]:
                raise Refuted(f"{name}: the {k} of the sampler differ between processes (PYTHONHASHSEED={rh}: {str(ref[k])[:300]}; PYTHONHASHSEED={h}: {str(d[k])[:300]})",
                              {"model": name, "hash seeds": [rh, h]})
    return n * len(ref or {}), n


for name, observe in variants():
    if observe and not THOROUGH:
        continue
    check.ob(f"{name}{list(observe) or ''}: equal seeds give equal samplers", F, lambda: same(name, observe))
    check.ob(f"{name}{list(observe) or ''}: all generators come from the given stream", F, lambda: one_stream(name, observe))
check.ob("same_shapes: all generators come from the given stream (real kernel)", F, lambda: one_stream("same_shapes", (), False))
check.replay("a stream of its own", F, other_stream)
check.replay("NumPy's global generator", F, global_state)
st = check.replay("processes with different hash seeds", F, lambda: (processes(), (len(HASH), len(HASH)))[1])
for name in NAMES + [f"generated_{k}" for k in GEN] + [n + " (real kernel)" for n in REAL]:
    if st == "held":
        check.replay(f"{name}: digest over processes", F, lambda: compare(name))

sys.exit(check.finish())
