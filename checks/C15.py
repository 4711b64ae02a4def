"""C15: model descriptions are consistent or rejected."""
import itertools
import random
import sys

from aevc.core import Check, Refuted, SEED, THOROUGH

import aesara.tensor as at
import z3

from aevc import pyvc
from aevc.pyvc import U, VC, Inst, State
from aevc.terms import Unsupported

import aemcmc.utils as utils

check = Check("C15", "proof")
check.assumptions += [
    "variables compare by identity (Aesara's Variable defines neither __eq__ nor __hash__ for these types) and names are strings",
    "reading `name` of a variable has no effect and always gives the same string",
]
check.trusted += [
    "aevc/pyvc.py: semantics of the Python statements, comprehensions and builtins that occur in the source",
    "lemma on finite sets used for len(): the image of a set under a map is as large as the set iff the map is injective on it",
    "dataclass-generated __init__ assigns the declared fields and calls __post_init__ (exercised by the replays)",
]
F = "aemcmc.utils.ModelInfo.__post_init__"
INT = z3.IntSort()


# ------------------------------------------------------------------ contract of __post_init__
def setup():
    vc = VC()
    st = State()
    me = Inst(0, utils.ModelInfo)
    obs, m, det = vc.fresh_seq("observed_rvs"), vc.fresh_map("rvs_to_values"), vc.fresh_seq("deterministic_vars")
    st.fields[(0, "observed_rvs")] = obs
    st.fields[(0, "rvs_to_values")] = vc.new(st, m)
    st.fields[(0, "deterministic_vars")] = det
    st.fields[(0, "updates")] = vc.new(st, vc.fresh_map("updates"))
    outs = vc.run(vc.function(utils.ModelInfo.__post_init__), [me], st=st)
    normal = [o for o in outs if o.kind == "return"]
    raising = [o for o in outs if o.kind == "raise"]
    return vc, obs, m, det, normal, raising


try:
    P = setup()
    why = None
except Exception as e:  # the source is outside of the executor's reach
    P, why = None, f"{type(e).__name__}: {e}"


CONSISTENT = {}


def proof(f):
    """f(vc, obs, m, det, fields) -> goal, on every normal outcome."""

    def thunk():
        if P is None:
            raise Unsupported(why)
        vc, obs, m, det, normal, _ = P
        if not normal:
            raise Unsupported("no normal outcome")
        for o in normal:
            def field(name, o=o):
                if (0, name) not in o.state.fields:
                    raise Unsupported(f"{name} is not assigned")
                return vc.deref(o.state.fields[(0, name)], o.state)

            hyps = list(o.state.pc)
            if id(o) not in CONSISTENT:
                CONSISTENT[id(o)] = vc.consistent(hyps)
            if not CONSISTENT[id(o)]:
                raise Unsupported("contradictory hypotheses")
            for goal in f(vc, obs, m, det, field):
                r = vc.prove(hyps, goal)
                if r is not True:
                    raise Unsupported("the solver " + ("has a countermodel (left to the replays)" if r is False else "gave no answer"))
                hyps.append(goal)
        return "z3"

    return thunk


def name(vc, u):
    return vc.fun("attr:name", U, U)(u)


def seqlike(vc, v):
    s = vc.source(v, None)
    if s.sorts != [INT]:
        raise Unsupported("an ordered sequence is expected")
    return s.card, lambda j: pyvc.obj(s.elem(j))


def inseq(vc, s, u):
    n, at_ = seqlike(vc, s)
    return vc.exists([INT], lambda j: z3.And(0 <= j, j < n, at_(j) == u))


def values_of(m, u):
    return pyvc.obj(m.get(u))


def anyvar(vc, obs, m, det, u):
    return z3.Or(inseq(vc, obs, u), inseq(vc, det, u), m.mem(u), vc.exists([U], lambda k: z3.And(m.mem(k), values_of(m, k) == u)))


def inverse(vc, obs, m, det, field):
    v2r = field("values_to_rvs")
    yield vc.forall([U], lambda k: z3.Implies(m.mem(k), z3.And(v2r.mem(values_of(m, k)), pyvc.obj(v2r.get(values_of(m, k))) == k)))
    yield vc.forall([U], lambda v: z3.Implies(v2r.mem(v), z3.And(m.mem(pyvc.obj(v2r.get(v))), values_of(m, pyvc.obj(v2r.get(v))) == v)))


def partition(vc, obs, m, det, field):
    un = field("unobserved_rvs")
    n, a = seqlike(vc, un)
    yield vc.forall([INT], lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(m.mem(a(j)), z3.Not(inseq(vc, obs, a(j))))))
    yield vc.forall([U], lambda k: z3.Implies(z3.And(m.mem(k), z3.Not(inseq(vc, obs, k))), inseq(vc, un, k)))
    yield vc.forall([INT, INT], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), m.pos(a(i)) < m.pos(a(j))))


def declared(vc, obs, m, det, field):
    for nm, v in (("observed_rvs", obs), ("deterministic_vars", det)):
        n, a = seqlike(vc, v)
        n2, a2 = seqlike(vc, field(nm))
        yield z3.And(n == n2, vc.forall([INT], lambda j: z3.Implies(z3.And(0 <= j, j < n), a(j) == a2(j))))
    m2 = field("rvs_to_values")
    yield vc.forall([U], lambda k: z3.And(m.mem(k) == m2.mem(k), z3.Implies(m.mem(k), z3.And(values_of(m, k) == values_of(m2, k), m.pos(k) == m2.pos(k)))))


def aligned(vc, obs, m, det, field):
    for rvs, vals in (("unobserved_rvs", "unobserved_values"), ("observed_rvs", "observed_values")):
        n, a = seqlike(vc, field(rvs))
        k, b = seqlike(vc, field(vals))
        yield n == k
        yield vc.forall([INT], lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(m.mem(a(j)), b(j) == values_of(m, a(j)))))


def table(vc, obs, m, det, field):
    t = field("names_to_vars")
    yield vc.forall([U], lambda u: z3.Implies(anyvar(vc, obs, m, det, u), z3.And(t.mem(name(vc, u)), pyvc.obj(t.get(name(vc, u))) == u)))
    yield vc.forall([U], lambda s: z3.Implies(t.mem(s), z3.And(anyvar(vc, obs, m, det, pyvc.obj(t.get(s))), name(vc, pyvc.obj(t.get(s))) == s)))


def named(vc, obs, m, det, field):
    tr = vc.fun("truthy", U, z3.BoolSort())
    yield vc.forall([U], lambda u: z3.Implies(anyvar(vc, obs, m, det, u), tr(name(vc, u))))


def unique(vc, obs, m, det, field):
    if field is not None:
        yield next(table(vc, obs, m, det, field))
    yield vc.forall([U, U], lambda u, v: z3.Implies(z3.And(anyvar(vc, obs, m, det, u), anyvar(vc, obs, m, det, v), name(vc, u) == name(vc, v)), u == v))


def distinct(vc, obs, m, det, field):
    yield vc.forall([U, U], lambda u, v: z3.Implies(z3.And(m.mem(u), m.mem(v), values_of(m, u) == values_of(m, v)), u == v))


def known(vc, obs, m, det, field):
    n, a = seqlike(vc, obs)
    yield vc.forall([INT], lambda j: z3.Implies(z3.And(0 <= j, j < n), m.mem(a(j))))


for nm, f in (
    ("the value map is inverted", inverse), ("the unobserved variables are those not observed, in order", partition),
    ("declared fields are kept", declared), ("value lists line up", aligned), ("the name table has every variable once", table),
    ("an unnamed variable is rejected", named), ("a shared name is rejected", unique), ("a shared value variable is rejected", distinct),
    ("an observed variable without a value is rejected", known),
):
    check.ob(nm, F, proof(f))


def accepted():
    """A consistent description is not rejected: no raising path is compatible with it."""
    if P is None:
        raise Unsupported(why)
    vc, obs, m, det, normal, raising = P
    tr = vc.fun("truthy", U, z3.BoolSort())
    hyps = [z3.And(*known(vc, obs, m, det, None)), z3.And(*distinct(vc, obs, m, det, None)), z3.And(*unique(vc, obs, m, det, None)), z3.And(*named(vc, obs, m, det, None))]
    assert tr is not None
    if not vc.consistent(hyps):
        raise Unsupported("contradictory hypotheses")
    for c in [z3.And(*o.state.pc) for o in raising] + [c for c, _ in vc.raises]:
        if vc.prove(hyps, z3.Not(c)) is not True:
            raise Unsupported("the solver gave no answer")
    return "z3"


check.ob("a consistent description is accepted", F, accepted)


# ------------------------------------------------------------------ replays on real variables
srng = at.random.RandomStream(0)
MOD = utils.ModelInfo


def var(kind, nm):
    if kind == "value":
        v = at.vector()
    elif kind == "det":
        v = at.exp(at.vector())
    else:
        v = srng.normal(0, 1, size=3)
    v.name = nm
    return v


def decide(observed, rv2v, det):
    """The oracle: None if the description has to be rejected, or the tables it has to give."""
    vals = list(rv2v.values())
    if any(not any(o is k for k in rv2v) for o in observed):
        return None
    if len({id(v) for v in vals}) != len(vals):
        return None
    every = {id(v): v for v in [*observed, *rv2v, *vals, *det]}
    names = [v.name for v in every.values()]
    if any(not n for n in names) or len(set(names)) != len(names):
        return None
    un = [k for k in rv2v if not any(k is o for o in observed)]
    return {
        "observed_rvs": list(observed), "unobserved_rvs": un, "deterministic_vars": list(det),
        "observed_values": [rv2v[o] for o in observed], "unobserved_values": [rv2v[k] for k in un],
        "values_to_rvs": {v: k for k, v in rv2v.items()}, "rvs_to_values": dict(rv2v),
        "names_to_vars": {v.name: v for v in every.values()},
    }


def one(observed, rv2v, det, what):
    want = decide(observed, rv2v, det)
    given = dict(rv2v)
    desc = {"observed": [o.name for o in observed], "rvs_to_values": [(k.name, v.name) for k, v in rv2v.items()], "deterministic": [d.name for d in det], "what": what}
    ups = {}
    try:
        info = MOD(tuple(observed), rv2v, tuple(det), ups)
    except Exception as e:
        if want is not None:
            raise Refuted(f"a consistent description is rejected ({type(e).__name__}: {e})", desc, replayed=True)
        return
    if want is None:
        raise Refuted("an inconsistent description is accepted", desc, replayed=True)
    for k, v in want.items():
        got = getattr(info, k)
        if isinstance(v, dict):
            ok = isinstance(got, dict) and len(got) == len(v) and all(a in got and got[a] is b for a, b in v.items())
        else:
            ok = len(got) == len(v) and all(a is b for a, b in zip(got, v))
        if not ok:
            raise Refuted(f"{k} of the description is wrong: {got}", desc, replayed=True)
    if list(rv2v.items()) != list(given.items()) or info.updates is not ups:
        raise Refuted("the given maps are changed", desc, replayed=True)


def exhaustive():
    """Every naming pattern of up to two variables with values and one deterministic variable."""
    n = 0
    names = [None, "", "a", "b", "c"] if not THOROUGH else [None, "", "a", "b", "c", "d"]
    for k, d in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0)) + (((2, 1),) if THOROUGH else ()):
        for pat in itertools.product(names if 2 * k + d < 4 else names[1:] + ["d"], repeat=2 * k + d):
            rvs = [var("rv", x) for x in pat[:k]]
            vals = [var("value", x) for x in pat[k:2 * k]]
            dets = [var("det", x) for x in pat[2 * k:]]
            for mask in range(2 ** k):
                obs = [r for i, r in enumerate(rvs) if mask >> i & 1]
                one(obs, dict(zip(rvs, vals)), dets, "exhaustive")
                n += 1
    return n, n


def randomised(seed):
    def run():
        rnd = random.Random(seed * 1009 + SEED)
        n = 0
        for _ in range(60 if not THOROUGH else 2000):
            k, d = rnd.randrange(0, 7), rnd.randrange(0, 4)
            rvs = [var("rv", f"x{i}") for i in range(k)]
            vals = [var("value", f"v{i}") for i in range(k)]
            dets = [var("det", f"d{i}") for i in range(d)]
            order = list(range(k))
            rnd.shuffle(order)
            rv2v = {rvs[i]: vals[i] for i in order}
            obs = [r for r in rvs if rnd.random() < 0.4]
            rnd.shuffle(obs)
            what = []
            for _ in range(rnd.choice([0, 0, 1, 1, 1, 2])):
                every = rvs + vals + dets
                kind = rnd.choice(["unnamed", "duplicate", "shared", "missing", "overlap", "repeat", "self", "deterministic"])
                what.append(kind)
                if kind == "unnamed" and every:
                    rnd.choice(every).name = rnd.choice([None, ""])
                elif kind == "duplicate" and len(every) > 1:
                    a, b = rnd.sample(every, 2)
                    a.name = b.name
                elif kind == "shared" and k > 1:
                    a, b = rnd.sample(rvs, 2)
                    rv2v[a] = rv2v.get(b, vals[0])
                elif kind == "missing" and k:
                    r = rnd.choice(rvs)
                    if r in rv2v and rnd.random() < 0.7:
                        del rv2v[r]
                    else:
                        obs.append(var("rv", "other"))
                elif kind == "overlap" and every:
                    dets.append(rnd.choice(every))
                elif kind == "repeat" and obs:
                    obs.append(rnd.choice(obs))
                elif kind == "self" and k:
                    r = rnd.choice(rvs)
                    rv2v[r] = r
                elif kind == "deterministic":
                    # equal computations are different variables
                    x = at.vector()
                    a, b = at.exp(x), at.exp(x)
                    a.name, b.name = "e", rnd.choice(["e", "f"])
                    dets += [a, b]
            one(obs, rv2v, dets, what)
            n += 1
        return n, n

    return run


check.replay("naming patterns", F, exhaustive)
for s in range(3):
    check.replay(f"random descriptions {s}", F, randomised(s))

sys.exit(check.finish())
