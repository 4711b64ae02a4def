"""Contracts of the repository's bookkeeping functions, discharged on their source (pyvc)."""
import ast

import z3

from . import pyvc
from .pyvc import U, VC, Inst, Seq, State
from .terms import Unsupported

INT, BOOL = z3.IntSort(), z3.BoolSort()


class Contract:
    """One function under contract: `setup(vc, st)` gives (function, arguments, context)."""

    def __init__(self, check, F, setup, contracts=None, timeout=15000):
        self.check, self.F = check, F
        self.why = None
        self.consistent = {}
        self.loops_ok = None
        try:
            self.vc = VC(contracts, timeout=timeout)
            st = State()
            f, args, self.ctx = setup(self.vc, st)
            self.pre = list(self.ctx.pop("pre", []))
            st.pc = list(self.pre)
            fun = f if isinstance(f, pyvc.Fun) else self.vc.function(f)
            count = {}
            for n in ast.walk(fun.node):
                if isinstance(n, (ast.For, ast.While)):
                    kind = "for" if isinstance(n, ast.For) else "while"
                    k = f"{kind}{count.setdefault(kind, 0)}"
                    count[kind] += 1
                    if k in self.ctx.get("loops", {}):
                        self.vc.loops[id(n)] = self.ctx["loops"][k]
            self.node = fun.node
            outs = self.vc.run(fun, args, st=st)
            self.normal = [o for o in outs if o.kind == "return"]
            self.raising = [o for o in outs if o.kind == "raise"]
        except Exception as e:  # the source is outside of the executor's reach
            self.why = f"{type(e).__name__}: {e}"

    def _prove(self, hyps, goal):
        r = self.vc.prove(hyps, goal)
        if r is not True:
            raise Unsupported("the solver " + ("has a countermodel (left to the replays)" if r is False else "gave no answer"))

    def _consistent(self, key, hyps):
        if key not in self.consistent:
            self.consistent[key] = self.vc.consistent(hyps)
        if not self.consistent[key]:
            raise Unsupported("contradictory hypotheses")

    def loops(self):
        """The obligations of the loops' invariants."""
        if self.loops_ok is None:
            self.loops_ok = "unproved"
            for name, hyps, goal in self.vc.goals:
                self._consistent(tuple(h.get_id() for h in hyps), hyps)
                try:
                    self._prove(hyps, goal)
                except Unsupported as e:
                    raise Unsupported(f"{name}: {e}")
            self.loops_ok = True
        if self.loops_ok is not True:
            raise Unsupported("a loop invariant is not proved")

    def invariants(self, name):
        def thunk():
            if self.why:
                raise Unsupported(self.why)
            if not self.vc.goals:
                raise Unsupported("no loop with an invariant")
            self.loops()
            return "z3"

        self.check.ob(name, self.F, thunk)

    def ob(self, name, f):
        """`f(view)` yields goals about each normal outcome; proved goals are lemmas of the next ones."""

        def thunk():
            if self.why:
                raise Unsupported(self.why)
            if not self.normal:
                raise Unsupported("no normal outcome")
            self.loops()
            for k, o in enumerate(self.normal):
                hyps = list(o.state.pc)
                self._consistent(k, hyps)
                for goal in f(View(self, o)):
                    self._prove(hyps, goal)
                    hyps.append(goal)
            return "z3"

        self.check.ob(name, self.F, thunk)

    def returns(self, name, hyps, only=None):
        """No raising path is compatible with the hypotheses."""

        def thunk():
            if self.why:
                raise Unsupported(self.why)
            self.loops()
            hs = self.pre + list(hyps(View(self, None)))
            self._consistent(name, hs)
            for c in [z3.And(*o.state.pc) for o in self.raising] + [c for c, e in self.vc.raises if only in (None, e)]:
                self._prove(hs, z3.Not(c))
            return "z3"

        self.check.ob(name, self.F, thunk)


class View:
    """The context and an outcome, for the formulas of a contract."""

    def __init__(self, c, outcome):
        self.vc, self.ctx, self.o = c.vc, c.ctx, outcome
        self.__dict__.update(c.ctx)

    def value(self):
        return self.vc.deref(self.o.value, self.o.state)

    def deref(self, v):
        return self.vc.deref(v, self.o.state)

    def field(self, name, i=0):
        if (i, name) not in self.o.state.fields:
            raise Unsupported(f"{name} is not assigned")
        return self.vc.deref(self.o.state.fields[(i, name)], self.o.state)

    def all(self, sorts, f):
        return self.vc.forall(sorts, f)

    def some(self, sorts, f):
        return self.vc.exists(sorts, f)

    def seq(self, v):
        """(length, element as an object) of an ordered value."""
        s = self.vc.source(v, self.o.state if self.o else None)
        if s.sorts != [INT]:
            raise Unsupported("an ordered sequence is expected")
        return s.card, lambda j: pyvc.obj(s.elem(j))

    def inseq(self, v, u):
        n, a = self.seq(v)
        return self.some([INT], lambda j: z3.And(0 <= j, j < n, a(j) == u))

    def attr(self, name, u):
        return self.vc.fun("attr:" + name, U, U)(u)


def no_writes(x):
    if x.vc.attr_writes:
        raise Unsupported(f"assignment to {x.vc.attr_writes[:3]}")
    yield z3.BoolVal(True)


def get(m, u):
    return pyvc.obj(m.get(u))


def within(j, n):
    return z3.And(0 <= j, j < n)


# ------------------------------------------------------------------ Sampler.__post_init__
def sampler_contract(check, F):
    from aemcmc.types import Sampler

    def setup(vc, st):
        me = Inst(0, Sampler)
        steps = vc.fresh_map("sample_steps")
        st.fields[(0, "sample_steps")] = vc.new(st, steps)
        st.fields[(0, "updates")] = vc.new(st, vc.fresh_map("updates"))
        st.fields[(0, "parameters")] = vc.new(st, vc.fresh_map("parameters"))
        return Sampler.__post_init__, [me], {"steps": steps}

    c = Contract(check, F, setup)

    def op(x, u):
        return x.attr("op", x.attr("owner", get(x.steps, u)))

    def stage(x, k):
        v = x.field("stages").get(k)
        if not isinstance(v, Seq):
            raise Unsupported("a stage is no list")
        return v.n, lambda j: pyvc.obj(v.at(j))

    def listed(x):
        st = x.field("stages")
        yield x.all([U], lambda u: z3.Implies(x.steps.mem(u), z3.And(
            st.mem(op(x, u)), x.some([INT], lambda j: z3.And(within(j, stage(x, op(x, u))[0]), stage(x, op(x, u))[1](j) == u)))))

    def own(x):
        st = x.field("stages")
        yield x.all([U, INT], lambda k, j: z3.Implies(z3.And(st.mem(k), within(j, stage(x, k)[0])), z3.And(
            x.steps.mem(stage(x, k)[1](j)), op(x, stage(x, k)[1](j)) == k)))

    def within_order(x):
        st = x.field("stages")
        yield x.all([U, INT, INT], lambda k, i, j: z3.Implies(z3.And(st.mem(k), 0 <= i, i < j, j < stage(x, k)[0]),
                                                             x.steps.pos(stage(x, k)[1](i)) < x.steps.pos(stage(x, k)[1](j))))

    def once(x):
        st = x.field("stages")
        yield from own(x)
        yield from within_order(x)
        yield x.all([U, U, INT, INT], lambda k, l, i, j: z3.Implies(
            z3.And(st.mem(k), st.mem(l), within(i, stage(x, k)[0]), within(j, stage(x, l)[0]), stage(x, k)[1](i) == stage(x, l)[1](j)),
            z3.And(k == l, i == j)))

    def nonempty(x):
        st = x.field("stages")
        yield x.all([U], lambda k: z3.Implies(st.mem(k), stage(x, k)[0] > 0))

    def order(x):
        st = x.field("stages")
        yield from nonempty(x)
        yield from own(x)
        yield x.all([U, U], lambda k, l: z3.Implies(z3.And(st.mem(k), st.mem(l), st.pos(k) < st.pos(l)),
                                                    x.steps.pos(stage(x, k)[1](z3.IntVal(0))) < x.steps.pos(stage(x, l)[1](z3.IntVal(0)))))
        yield x.all([U, U], lambda k, l: z3.Implies(z3.And(st.mem(k), st.mem(l), st.pos(k) == st.pos(l)), k == l))

    def frame(x):
        m = x.field("sample_steps")
        yield x.all([U], lambda k: z3.And(m.mem(k) == x.steps.mem(k), z3.Implies(m.mem(k), z3.And(get(m, k) == get(x.steps, k), m.pos(k) == x.steps.pos(k)))))

    for nm, f in (("every sampled variable is listed in the stage of its own step", listed),
                  ("a stage lists sampled variables that its own step computes", own),
                  ("variables of a stage are in sweep order", within_order),
                  ("no variable is listed twice", once),
                  ("no stage is empty", nonempty),
                  ("stages are ordered by their first variable", order),
                  ("the sampling steps are unchanged", frame)):
        c.ob(nm, f)
    c.returns("every map of steps is accepted", lambda x: [])


# ------------------------------------------------------------------ construct_sampler
def no_effect(name):
    def handler(vc, st, *args, **kw):
        return pyvc.NoneV()

    return handler


def nuts_result(vc, st, srng, to_sample, realized):
    """Contract of nuts.construct_sampler: one result per given variable, in the given order."""
    d = vc.deref(to_sample, st)
    gt = vc.fresh_fun("nuts", U, U)
    steps = pyvc.Map(d.mem, lambda u: pyvc.Obj(gt(u)), d.pos, d.top, d.card)
    steps.same_order = pyvc.root(d)
    st.fields[("nuts", "given")] = d
    st.fields[("nuts", "step")] = gt
    st.fields[("nuts", "realized")] = vc.deref(realized, st)
    return pyvc.TupleV([vc.new(st, steps), vc.new(st, vc.fresh_map("nuts.updates")), vc.new(st, vc.fresh_map("nuts.parameters"))])


def construct_sampler_contract(check, F, parts=("domain", "frame", "order")):
    """For every model: which variables get a step and an initial value, and in which order they are updated."""
    from aemcmc import basic

    def ir(vc, st, obs):
        vc.user_obs = obs
        m = vc.fresh_map("obs")
        fg = vc.fresh("fgraph", U)
        outs = vc.attr(pyvc.Obj(fg), "outputs", st)
        src = vc.source(outs, st)
        n, a = src.card, lambda j: pyvc.obj(src.elem(j))
        n2o = vc.fresh_map("new_to_old")
        # the outputs are distinct, contain the observed variables and are mapped back one-to-one
        vc.assume(n >= 0)
        idx, new = vc.fresh_fun("index", U, INT), vc.fresh_fun("old_to_new", U, U)
        vc.assume(vc.forall([INT], lambda j: z3.Implies(within(j, n), z3.And(idx(a(j)) == j, n2o.mem(a(j))))))
        vc.assume(vc.forall([U], lambda u: z3.Implies(m.mem(u), z3.And(within(idx(u), n), a(idx(u)) == u))))
        vc.assume(vc.forall([U], lambda u: z3.Implies(n2o.mem(u), new(get(n2o, u)) == u)))
        vc.ir, vc.ir_graph = (n, a, m, n2o), fg
        return pyvc.TupleV([pyvc.Obj(fg), vc.new(st, m), vc.new(st, vc.fresh_map("memo")), vc.new(st, n2o)])

    def inputs(vc, st, outs, *a, **kw):
        return vc.fresh_seq("graph_inputs")

    def graph(vc, st, *args, outputs=None, **kw):
        fg = vc.fresh("sfgraph", U)
        if vc.second and outputs is not None:
            s = vc.source(outputs, st)
            if s.sorts == [INT]:
                vc.step_graphs.append((list(vc.scope), list(st.pc), fg, pyvc.obj(s.elem(z3.IntVal(0)))))
        return pyvc.Obj(fg)

    def sampler(vc, st, steps, updates=None, parameters=None):
        r = Inst("sampler")
        st.fields[("sampler", "sample_steps")] = steps
        st.fields[("sampler", "updates")] = updates
        st.fields[("sampler", "parameters")] = parameters
        return r

    def step_inputs(vc, st, sfgraph, values):
        """Contract of replace_step_inputs: only the step's graph is changed."""
        if vc.second:
            vc.given_values.append((list(vc.scope), list(st.pc), vc.deref(values, st), pyvc.obj(vc.deref(sfgraph, st))))
        return pyvc.NoneV()

    contracts = {"construct_ir_fgraph": ir, "graph_inputs": inputs, "Sampler": sampler, "nuts.construct_sampler": nuts_result,
                 "replace_step_inputs": step_inputs, "FunctionGraph": graph}

    def setup(vc, st):
        obs = vc.fresh_map("obs_rvs_to_values")
        r = vc.new(st, obs)
        vc.obs_ref = r
        vc.given_values, vc.step_graphs = [], []
        return basic.construct_sampler, [r, pyvc.Obj(vc.fresh("srng", U))], {"given": obs}

    c = Contract(check, F, setup, contracts)

    def result(x):
        v = x.value()
        if not (isinstance(v, pyvc.TupleV) and len(v.items) == 2 and isinstance(v.items[0], Inst)):
            raise Unsupported("result")
        return x.field("sample_steps", v.items[0].i), x.deref(v.items[1])

    def sampled(x, j):
        n, a, obs, _ = x.vc.ir
        return z3.And(within(j, n), z3.Not(obs.mem(a(j))))

    def domain(which):
        def f(x):
            n, a, obs, n2o = x.vc.ir
            m = result(x)[which]
            yield x.all([INT], lambda j: z3.Implies(sampled(x, j), m.mem(get(n2o, a(j)))))
            yield x.all([U], lambda u: z3.Implies(m.mem(u), x.some([INT], lambda j: z3.And(sampled(x, j), get(n2o, a(j)) == u))))
        return f

    def frame(x):
        m = x.o.state.heap[x.vc.obs_ref.i]
        if m is not x.given:
            yield x.all([U], lambda u: z3.And(m.mem(u) == x.given.mem(u), z3.Implies(m.mem(u), get(m, u) == get(x.given, u))))

    def nuts(x):
        """(is the variable left to the gradient-based step, its new value)"""
        d = x.o.state.fields.get(("nuts", "given"))
        if d is None:
            return (lambda u: z3.BoolVal(False)), (lambda u: u)
        return d.mem, x.o.state.fields[("nuts", "step")]

    def order(x):
        n, a, obs, n2o = x.vc.ir
        steps, _ = result(x)
        N, _ = nuts(x)
        pos = lambda j: steps.pos(get(n2o, a(j)))  # noqa: E731
        both = lambda i, j: z3.And(sampled(x, i), sampled(x, j))  # noqa: E731
        _, init = result(x)
        ipos = lambda j: init.pos(get(n2o, a(j)))  # noqa: E731
        yield x.all([INT, INT], lambda i, j: z3.Implies(z3.And(both(i, j), i < j), ipos(i) < ipos(j)))
        yield x.all([INT, INT], lambda i, j: z3.Implies(z3.And(both(i, j), i < j, z3.Not(N(a(i))), z3.Not(N(a(j)))), pos(i) < pos(j)))
        yield x.all([INT, INT], lambda i, j: z3.Implies(z3.And(both(i, j), z3.Not(N(a(i))), N(a(j))), pos(i) < pos(j)))
        yield x.all([INT, INT], lambda i, j: z3.Implies(z3.And(both(i, j), i < j, N(a(i)), N(a(j))), pos(i) < pos(j)))

    def newest(x):
        n, a, obs, n2o = x.vc.ir
        steps, init = result(x)
        N, _ = nuts(x)
        if not x.vc.given_values:
            raise Unsupported("the values given to the steps are not seen")
        for sc, pc, m, _ in x.vc.given_values:
            if len(sc) != 1 or sc[0].sort() != INT:
                raise Unsupported("the steps are not made in a loop over the variables")
            it = sc[0]
            for f in (
                lambda k: z3.Implies(z3.And(sampled(x, k), k < it, z3.Not(N(a(k)))), z3.And(m.mem(a(k)), get(m, a(k)) == get(steps, get(n2o, a(k))))),
                lambda k: z3.Implies(z3.And(sampled(x, k), z3.Or(k >= it, N(a(k)))), z3.And(m.mem(a(k)), get(m, a(k)) == get(init, get(n2o, a(k))))),
                lambda k: z3.Implies(z3.And(within(k, n), obs.mem(a(k))), z3.And(m.mem(a(k)), get(m, a(k)) == get(obs, a(k)))),
            ):
                yield z3.ForAll([it], z3.Implies(z3.And(*pc), x.all([INT], f)))

    def gradient(x):
        n, a, obs, n2o = x.vc.ir
        steps, init = result(x)
        d = x.o.state.fields.get(("nuts", "given"))
        if d is None:
            return
        N, new = nuts(x)
        r = x.o.state.fields[("nuts", "realized")]
        yield x.all([INT], lambda k: z3.Implies(z3.And(sampled(x, k), N(a(k))), z3.And(
            get(steps, get(n2o, a(k))) == new(a(k)), get(d, a(k)) == get(init, get(n2o, a(k))), z3.Not(r.mem(a(k))))))
        yield x.all([INT], lambda k: z3.Implies(z3.And(sampled(x, k), z3.Not(N(a(k)))), z3.And(r.mem(a(k)), get(r, a(k)) == get(steps, get(n2o, a(k))))))
        yield x.all([INT], lambda k: z3.Implies(z3.And(within(k, n), obs.mem(a(k))), z3.And(r.mem(a(k)), get(r, a(k)) == get(obs, a(k)))))
        yield x.all([U], lambda u: z3.Implies(d.mem(u), x.some([INT], lambda k: z3.And(sampled(x, k), a(k) == u))))

    def stepped(x):
        """A closed-form step is the first output of a graph made, in the iteration of its variable, from a step
        found for that variable, and no step found for an observed variable is computed by the same node."""
        n, a, obs, n2o = x.vc.ir
        steps, init = result(x)
        N, _ = nuts(x)
        found = x.attr("rvs_to_samplers", x.attr("sampler_mappings", x.vc.ir_graph))
        entry = lambda u: x.vc.fun("get3", U, U, U, U)(found, u, z3.Const("()", U))  # noqa: E731
        count, at_ = x.vc.fun("seqlen", U, INT), x.vc.fun("seqat", U, INT, U)
        item = lambda k, u: x.vc.seqat(u, k)  # noqa: E731
        owner = lambda e: x.attr("owner", item(1, e))  # noqa: E731

        def cases(j):
            res = []
            for sc, pc, fg, first in x.vc.step_graphs:
                for sc2, pc2, _, fg2 in x.vc.given_values:
                    if len(sc) == 1 and len(sc2) == 1 and sc[0].eq(sc2[0]) and fg.eq(fg2):
                        f = z3.And(*pc, *pc2, get(steps, get(n2o, a(j))) == item(0, x.attr("outputs", fg)))
                        src = x.some([INT], lambda i: z3.And(within(i, count(entry(a(sc[0])))), first == item(1, at_(entry(a(sc[0])), i))))
                        free = x.all([U, INT], lambda o, i: z3.Implies(z3.And(obs.mem(o), within(i, count(entry(o)))), owner(at_(entry(o), i)) != x.attr("owner", first)))
                        res.append([z3.substitute(y, (sc[0], j)) for y in (f, src, free)])
            if not res:
                raise Unsupported("the graphs of the steps are not seen")
            return res

        j = z3.Int("step!j")
        cs = cases(j)
        yield z3.ForAll([j], z3.Implies(z3.And(sampled(x, j), z3.Not(N(a(j)))), z3.Or(*[f for f, _, _ in cs])))
        for f, src, free in cs:
            yield z3.ForAll([j], z3.Implies(f, src))
            yield z3.ForAll([j], z3.Implies(f, free))

    if "domain" in parts:
        c.ob("an updated variable is computed by a step found for it, or by the gradient-based step", stepped)
        c.ob("every unobserved variable of the model gets exactly one step", domain(0))
        c.ob("every unobserved variable of the model gets exactly one initial value", domain(1))
        c.returns("no lookup of a variable fails", lambda x: [], only="KeyError")
    if "frame" in parts:
        c.ob("the caller's map of observations is unchanged", frame)
    if "order" in parts:
        c.ob("steps are swept in model order, the gradient-based step last", order)
        c.ob("a step is given the newest values at its position of the sweep", newest)
        c.ob("the gradient-based step is given the results of all other steps and the previous values of its own variables", gradient)
    return c


# ------------------------------------------------------------------ nuts.construct_sampler
def nuts_contract(check, F, parts=("values", "frame")):
    """Inputs, outputs and updates of the gradient-based step's operator belong together, for every model."""
    from aemcmc import nuts

    def step(vc, st, srng, to_sample, realized, *a, **kw):
        d = vc.deref(to_sample, st)
        gt = vc.fresh_fun("new_value", U, U)
        ups = vc.fresh_map("step.updates")
        vc.step_args = (d, vc.deref(realized, st))
        vc.step_new, vc.step_updates = gt, ups
        m = pyvc.Map(d.mem, lambda u: pyvc.Obj(gt(u)), d.pos, d.top, d.card)
        m.same_order = pyvc.root(d)
        res = vc.new(st, m)
        return pyvc.TupleV([res, vc.new(st, ups), pyvc.Obj(vc.fresh("parameters", U))])

    def inputs(vc, st, outs, *a, **kw):
        vc.inputs_of = vc.deref(outs, st)
        vc.all_inputs = vc.fresh_seq("graph_inputs")
        return vc.all_inputs

    def kernel(vc, st, ins, outs, *a, **kw):
        vc.op_inputs, vc.op_outputs = vc.deref(ins, st), vc.deref(outs, st)
        vc.op = vc.fresh("nuts_op", U)
        return pyvc.Obj(vc.op)

    def apply(vc, st, f, *args, **kw):
        if len(args) != 1 or not isinstance(args[0], pyvc.Star):
            raise Unsupported("application of the operator")
        vc.applied = (pyvc.obj(f), vc.deref(args[0].v, st))
        vc.result = vc.fresh("posterior", U)
        # the outputs of the node: as many as the operator has
        s = vc.source(pyvc.Obj(vc.result), st)
        vc.assume(s.card == vc.source(vc.op_outputs, st).card)
        return pyvc.Obj(vc.result)

    def setup(vc, st):
        ts, rz = vc.fresh_map("to_sample"), vc.fresh_map("realized")
        a, b = vc.new(st, ts), vc.new(st, rz)
        vc.refs = (a, b)
        return nuts.construct_sampler, [pyvc.Obj(vc.fresh("srng", U)), a, b], {"ts": ts, "rz": rz}

    c = Contract(check, F, setup, {"step": step, "graph_inputs": inputs, "NUTSKernel": kernel, "apply": apply})

    def result(x):
        v = x.value()
        if not (isinstance(v, pyvc.TupleV) and len(v.items) == 3):
            raise Unsupported("result")
        return [x.deref(y) for y in v.items]

    def output(x, j):
        """The j-th output of the node."""
        return pyvc.obj(x.vc.source(pyvc.Obj(x.vc.result), x.o.state).elem(j))

    def results(x):
        r, _, _ = result(x)
        n, o = x.seq(x.vc.op_outputs)
        yield x.all([U], lambda u: r.mem(u) == x.ts.mem(u))
        # the operator's first outputs are the step's new values, in the same order
        yield x.all([U], lambda u: z3.Implies(x.ts.mem(u), x.some([INT], lambda j: z3.And(within(j, n), get(r, u) == output(x, j), o(j) == x.vc.step_new(u)))))
        yield x.all([U, U], lambda u, v: z3.Implies(z3.And(x.ts.mem(u), x.ts.mem(v)), (r.pos(u) < r.pos(v)) == (x.ts.pos(u) < x.ts.pos(v))))

    def updates(x):
        _, up, _ = result(x)
        n, o = x.seq(x.vc.op_outputs)
        s = x.vc.step_updates
        yield x.all([U], lambda u: up.mem(u) == s.mem(u))
        yield x.all([U], lambda u: z3.Implies(s.mem(u), x.some([INT], lambda j: z3.And(within(j, n), get(up, u) == output(x, j), o(j) == get(s, u)))))

    def arguments(x):
        """The operator is applied to the values of the realized variables in place of the inputs that stand for them."""
        d, rz = x.vc.step_args
        op, given = x.vc.applied
        n, i = x.seq(x.vc.op_inputs)
        k, g = x.seq(given)
        yield op == x.vc.op
        yield n == k
        yield x.all([U], lambda u: z3.And(d.mem(u) == x.ts.mem(u), z3.Implies(x.ts.mem(u), get(d, u) == get(x.ts, u)), rz.mem(u) == x.rz.mem(u)))
        yield x.all([INT], lambda j: z3.Implies(within(j, n), z3.Or(
            z3.And(g(j) == i(j), x.all([U], lambda u: z3.Implies(z3.And(x.rz.mem(u), get(rz, u) == i(j)), get(x.rz, u) == i(j)))),
            x.some([U], lambda u: z3.And(x.rz.mem(u), get(rz, u) == i(j), get(x.rz, u) == g(j))))))

    def own_inputs(x):
        n, i = x.seq(x.vc.op_inputs)
        k, every = x.seq(x.vc.all_inputs)
        free = lambda u: z3.Not(z3.Or(x.vc.fun("isinstance:Constant", U, BOOL)(u), x.vc.fun("isinstance:SharedVariable", U, BOOL)(u)))  # noqa: E731
        m, o = x.seq(x.vc.op_outputs)
        m2, o2 = x.seq(x.vc.inputs_of)
        yield z3.And(m == m2, x.all([INT], lambda j: z3.Implies(within(j, m), o(j) == o2(j))))
        yield x.all([INT], lambda j: z3.Implies(z3.And(within(j, k), free(every(j))), x.some([INT], lambda l: z3.And(within(l, n), i(l) == every(j)))))
        yield x.all([INT], lambda l: z3.Implies(within(l, n), z3.And(free(i(l)), x.some([INT], lambda j: z3.And(within(j, k), every(j) == i(l))))))

    def fresh_inputs(x):
        """Computed values are not part of the step's graph: they become inputs of the operator."""
        _, rz = x.vc.step_args
        yield x.all([U], lambda u: z3.Implies(z3.And(x.rz.mem(u), x.attr("owner", get(x.rz, u)) == pyvc.NONE), get(rz, u) == get(x.rz, u)))

    def frame(x):
        for r, m in zip(x.vc.refs, (x.ts, x.rz)):
            m2 = x.o.state.heap[r.i]
            if m2 is not m:
                yield x.all([U], lambda u: z3.And(m2.mem(u) == m.mem(u), z3.Implies(m.mem(u), get(m, u) == get(m2, u))))

    if "values" in parts:
        c.ob("each variable gets the operator's output that is its new value", results)
        c.ob("each update is the operator's output that is the new state", updates)
        c.ob("the operator is applied to the realized variables' values", arguments)
        c.ob("the operator's inputs are the free inputs of its graph", own_inputs)
        c.ob("given values without a computation are used as they are", fresh_inputs)
    if "frame" in parts:
        c.ob("the given maps are unchanged", frame)
    return c


# ------------------------------------------------------------------ construct_ir_fgraph
def ir_contract(check, F, parts=("domain", "frame")):
    from aemcmc import rewriting

    def topo(vc, st, ins, outs, *a, **kw):
        vc.topo_of = vc.deref(outs, st)
        vc.nodes = vc.fresh_seq("nodes")
        return vc.nodes

    def graph(vc, st, *args, outputs=None, memo=None, **kw):
        fg = vc.fresh("fgraph", U)
        vc.given_outputs = vc.deref(outputs, st)
        if isinstance(memo, pyvc.Ref):
            vc.memo_before = vc.deref(memo, st)
            st.heap[memo.i] = vc.memo = vc.fresh_map("memo")
        outs = vc.source(vc.attr(pyvc.Obj(fg), "outputs", st), st)
        n, a = vc.source(vc.given_outputs, st).card, lambda j: pyvc.obj(outs.elem(j))
        idx = vc.fresh_fun("index", U, INT)
        vc.assume(outs.card == n)
        vc.assume(vc.forall([INT], lambda j: z3.Implies(within(j, n), idx(a(j)) == j)))
        vc.outs = (n, a)
        return pyvc.Obj(fg)

    def setup(vc, st):
        obs = vc.fresh_map("obs")
        r = vc.new(st, obs)
        vc.obs_ref = r
        return rewriting.construct_ir_fgraph, [r], {"obs": obs}

    c = Contract(check, F, setup, {"io_toposort": topo, "FunctionGraph": graph})

    def result(x):
        v = x.value()
        if not (isinstance(v, pyvc.TupleV) and len(v.items) == 4):
            raise Unsupported("result")
        return [x.deref(y) for y in v.items]

    def outputs(x):
        """The graph's outputs are the draws of exactly the random variables the observed ones depend on."""
        n, o = x.seq(x.vc.given_outputs)
        k, nodes = x.seq(x.vc.nodes)
        rv = lambda u: x.vc.fun("isinstance:RandomVariable", U, BOOL)(x.attr("op", u))  # noqa: E731
        draw = lambda u: x.vc.seqat(x.attr("outputs", u), 1)  # noqa: E731
        yield x.all([INT], lambda j: z3.Implies(z3.And(within(j, k), rv(nodes(j))), x.some([INT], lambda i: z3.And(within(i, n), o(i) == draw(nodes(j))))))
        yield x.all([INT], lambda i: z3.Implies(within(i, n), x.some([INT], lambda j: z3.And(within(j, k), rv(nodes(j)), o(i) == draw(nodes(j))))))

    def of_observed(x):
        m, t = x.seq(x.vc.topo_of)
        yield x.all([U], lambda u: z3.Implies(x.obs.mem(u), x.some([INT], lambda i: z3.And(within(i, m), t(i) == u))))
        yield x.all([INT], lambda i: z3.Implies(within(i, m), x.obs.mem(t(i))))

    def back(x):
        n2o = result(x)[3]
        n, a = x.vc.outs
        _, o = x.seq(x.vc.given_outputs)
        yield x.all([INT], lambda j: z3.Implies(within(j, n), z3.And(n2o.mem(a(j)), get(n2o, a(j)) == o(j))))
        yield x.all([U], lambda u: z3.Implies(n2o.mem(u), x.some([INT], lambda j: z3.And(within(j, n), a(j) == u))))

    def observed(x):
        """The observed variables are looked up among the cloned ones and keep their values."""
        m = result(x)[1]
        memo = x.vc.memo
        new = lambda u: z3.If(memo.mem(u), get(memo, u), u)  # noqa: E731
        inj = x.all([U, U], lambda u, v: z3.Implies(z3.And(x.obs.mem(u), x.obs.mem(v), new(u) == new(v)), u == v))
        yield x.all([U], lambda u: z3.Implies(x.obs.mem(u), m.mem(new(u))))
        yield z3.Implies(inj, x.all([U], lambda u: z3.Implies(x.obs.mem(u), get(m, new(u)) == get(x.obs, u))))
        yield x.all([U], lambda u: z3.Implies(m.mem(u), x.some([U], lambda v: z3.And(x.obs.mem(v), new(v) == u))))

    def values_kept(x):
        """The observed values are not cloned."""
        b = x.vc.memo_before
        yield x.all([U], lambda u: z3.Implies(x.obs.mem(u), z3.And(b.mem(get(x.obs, u)), get(b, get(x.obs, u)) == get(x.obs, u))))
        yield x.all([U], lambda u: z3.Implies(b.mem(u), get(b, u) == u))

    def frame(x):
        m = x.o.state.heap[x.vc.obs_ref.i]
        if m is not x.obs:
            yield x.all([U], lambda u: z3.And(m.mem(u) == x.obs.mem(u), z3.Implies(m.mem(u), get(m, u) == get(x.obs, u))))

    if "domain" in parts:
        c.ob("the graph is made for the observed variables", of_observed)
        c.ob("the graph's outputs are the draws of the random variables", outputs)
        c.ob("the new variables are mapped back to the model's", back)
        c.ob("the observations are those given, for the new variables", observed)
    if "frame" in parts:
        c.ob("the values of the observations are not copied", values_kept)
        c.ob("the given map is unchanged", frame)
    return c


# ------------------------------------------------------------------ replace_step_inputs
def step_inputs_contract(check, F, parts=("values", "frame")):
    from aemcmc import basic

    if getattr(basic, "replace_step_inputs", None) is None:
        return None

    def topo(vc, st, *a, **kw):
        return vc.fresh_seq("nodes")

    def clone(vc, st, ins, outs, *a, memo=None, **kw):
        """Contract of clone_get_equiv: its memo argument is extended (and returned)."""
        if isinstance(memo, pyvc.Ref):
            if memo.i in st.recording:
                st.effects.append((memo.i, "update", (), list(st.pc)))
            vc.cloned.append((list(vc.scope), list(st.pc), vc.deref(memo, st)))
            m = vc.fresh_map("equiv")
            d = vc.deref(memo, st)
            vc.axiom(vc.forall([U], lambda u: z3.Implies(d.mem(u), z3.And(m.mem(u), get(m, u) == get(d, u)))))
            s = vc.source(outs, st)
            vc.axiom(vc.forall(s.sorts, lambda *b: z3.Implies(s.guard(*b), m.mem(pyvc.obj(s.elem(*b))))))
            return vc.new(st, m)
        raise Unsupported("clone without a memo")

    def change(vc, st, node, i, new, *a, **kw):
        if vc.second:
            vc.changes.append((list(vc.scope), list(st.pc), pyvc.obj(node), i.t, pyvc.obj(new)))
        return pyvc.NoneV()

    def ancestors(vc, st, outs, *a, **kw):
        s = vc.source(outs, st)
        anc = vc.fun("ancestors", U, U)
        return pyvc.Obj(anc(pyvc.obj(s.elem(z3.IntVal(0)))))

    def setup(vc, st):
        vals = vc.fresh_map("values")
        r = vc.new(st, vals)
        vc.ref, vc.cloned, vc.changes = r, [], []
        return basic.replace_step_inputs, [pyvc.Obj(vc.fresh("sfgraph", U)), r], {"vals": vals}

    c = Contract(check, F, setup, {"clone_get_equiv": clone, "ancestors": ancestors, "sfgraph.toposort": topo, "toposort": topo,
                                   "change_node_input": change, "isdisjoint": isdisjoint})

    def frame(x):
        m = x.o.state.heap[x.vc.ref.i]
        if m is not x.vals:
            yield x.all([U], lambda u: z3.And(m.mem(u) == x.vals.mem(u), z3.Implies(m.mem(u), get(m, u) == get(x.vals, u))))

    def images(x):
        """A replaced input is its image under the given values."""
        if not x.vc.changes:
            raise Unsupported("no replacement is seen")
        for sc, pc, node, i, new in x.vc.changes:
            inp = x.vc.seqat(x.attr("inputs", node), i)
            yield z3.ForAll(sc, z3.Implies(z3.And(*pc, x.vals.mem(inp)), new == get(x.vals, inp)))

    if "frame" in parts:
        c.ob("the given values are unchanged", frame)
    if "values" in parts:
        c.ob("an input that has a value is replaced by it", images)
    return c


def isdisjoint(vc, st, a, b=None):
    if b is None:
        raise Unsupported("isdisjoint")
    d = vc.deref(a, st)
    s = vc.source(b, st)
    if isinstance(d, pyvc.Src):
        mem = d.guard
    else:
        mem = d.mem
    return pyvc.B(z3.Not(vc.exists(s.sorts, lambda *q: z3.And(s.guard(*q), mem(pyvc.obj(s.elem(*q)))))))


isdisjoint.method = True


# ------------------------------------------------------------------ get_rv_dependents
def dependents_contract(check, F):
    """The result is exactly the set of (random node, index) that a value flows into from `rv` without
    another random variable in between: the loops compute the least set that is closed under the deterministic clients."""
    from aemcmc import utils

    is_a = lambda vc, n, u: vc.fun("isinstance:" + n, U, BOOL)(u)  # noqa: E731

    def setup(vc, st):
        fg, rv = vc.fresh("fgraph", U), vc.fresh("rv", U)
        R = vc.fresh_fun("reachable", U, BOOL)
        length, at_ = vc.fun("seqlen", U, INT), vc.fun("seqat", U, INT, U)
        clients = lambda u: vc.fun("getitem", U, U, U)(vc.fun("attr:clients", U, U)(fg), u)  # noqa: E731
        entry = lambda u, k: at_(clients(u), k)  # noqa: E731
        node = lambda u, k: vc.seqat(entry(u, k), 0)  # noqa: E731
        pair = lambda u, k: pyvc.obj(pyvc.TupleV([pyvc.Obj(node(u, k)), pyvc.Obj(vc.seqat(entry(u, k), 1))]))  # noqa: E731
        rand = lambda n: z3.And(is_a(vc, "Apply", n), is_a(vc, "RandomVariable", vc.fun("attr:op", U, U)(n)))  # noqa: E731
        det = lambda n: z3.And(is_a(vc, "Apply", n), z3.Not(is_a(vc, "RandomVariable", vc.fun("attr:op", U, U)(n))))  # noqa: E731
        outs = lambda n: vc.fun("attr:outputs", U, U)(n)  # noqa: E731

        def closed(S):
            return vc.forall([U, INT, INT], lambda u, k, m: z3.Implies(
                z3.And(S(u), within(k, length(clients(u))), det(node(u, k)), within(m, length(outs(node(u, k))))), S(at_(outs(node(u, k)), m))))

        vc.assume(R(rv))
        vc.assume(closed(R))

        def processed(seen, res, u, k):
            """What an iteration for the client `k` of `u` establishes."""
            return z3.And(z3.Implies(rand(node(u, k)), res(pair(u, k))),
                          z3.Implies(det(node(u, k)), vc.forall([INT], lambda m: z3.Implies(within(m, length(outs(node(u, k)))), seen(at_(outs(node(u, k)), m))))))

        def parts(L):
            seqs, sets = L.containers(Seq), L.containers(pyvc.Set)
            returned = [n.value.id for n in ast.walk(c_node[0]) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)]
            if len(seqs) != 1 or len(returned) != 1 or returned[0] not in sets or len(sets) != 2:
                raise Unsupported("the roles of the containers")
            (seen,) = [v for k, v in sets.items() if k != returned[0]]
            return list(seqs.values())[0], seen.mem, sets[returned[0]].mem

        def common(todo, seen, res):
            return [
                seen(rv),
                vc.forall([U], lambda u: z3.Implies(seen(u), R(u))),
                vc.forall([INT], lambda j: z3.Implies(within(j, todo.n), seen(pyvc.obj(todo.at(j))))),
                vc.forall([U], lambda t: z3.Implies(res(t), vc.exists([U, INT], lambda u, k: z3.And(
                    R(u), within(k, length(clients(u))), rand(node(u, k)), t == pair(u, k))))),
            ]

        def waiting(todo, u):
            return vc.exists([INT], lambda j: z3.And(within(j, todo.n), pyvc.obj(todo.at(j)) == u))

        def outer(L):
            todo, seen, res = parts(L)
            return common(todo, seen, res) + [vc.forall([U, INT], lambda u, k: z3.Implies(
                z3.And(seen(u), z3.Not(waiting(todo, u)), within(k, length(clients(u)))), processed(seen, res, u, k)))]

        def inner(L):
            todo, seen, res = parts(L)
            x = vc.visited = visited(L)
            return common(todo, seen, res) + [
                seen(x),
                vc.forall([U, INT], lambda u, k: z3.Implies(
                    z3.And(seen(u), u != x, z3.Not(waiting(todo, u)), within(k, length(clients(u)))), processed(seen, res, u, k))),
                vc.forall([INT], lambda k: z3.Implies(within(k, L.j), processed(seen, res, x, k))),
            ]

        def visited(L):
            # the iterated list is fgraph.clients[x]
            t = pyvc.obj(L.src.elem(z3.IntVal(0))).arg(0)
            return t.arg(1)

        def least(x):
            """The definition of the least closed set, for the set that was computed."""
            (seen,) = [v.mem for v in x.o.state.heap.values() if isinstance(v, pyvc.Set) and v.mem is not x.value().mem]
            return z3.Implies(z3.And(seen(rv), closed(seen)), vc.forall([U], lambda u: z3.Implies(R(u), seen(u)))), seen

        return utils.get_rv_dependents, [pyvc.Obj(fg), pyvc.Obj(rv)], {
            "loops": {"while0": outer, "for0": inner}, "R": R, "least": least, "closed": closed, "rv": rv,
            "pair": pair, "rand": rand, "node": node, "count": lambda u: length(clients(u))}

    c_node = [VC().function(utils.get_rv_dependents).node] if hasattr(utils, "get_rv_dependents") else [None]
    c = Contract(check, F, setup)

    def only(x):
        m = x.value().mem
        yield x.all([U], lambda t: z3.Implies(m(t), x.some([U, INT], lambda u, k: z3.And(x.R(u), within(k, x.count(u)), x.rand(x.node(u, k)), t == x.pair(u, k)))))

    def every(x):
        m = x.value().mem
        induction, seen = x.least(x)
        yield x.closed(seen)
        yield z3.Implies(induction, x.all([U, INT], lambda u, k: z3.Implies(z3.And(x.R(u), within(k, x.count(u)), x.rand(x.node(u, k))), m(x.pair(u, k)))))

    c.invariants("the loop invariants are established and preserved")
    c.ob("every dependent that is returned is one", only)
    c.ob("every dependent is returned", every)
    return c


# ------------------------------------------------------------------ the step finders
def _seqlen(vc, u):
    return vc.fun("seqlen", U, INT)(u)


def finder_contract(check, F, finder, n_inputs, facts):
    """`facts(x, returned)` yields (name, goals) about the steps a finder returns, for every graph.

    What a pattern matched is known by its name only (`unify` and `run` are external)."""
    import inspect

    from aesara.graph.op import Op

    f = inspect.unwrap(getattr(finder, "fn", finder))

    def dependents(vc, st, fg, rv, *a, **kw):
        d = vc.fun("dependents", U, U, U, BOOL)
        g, r = pyvc.obj(fg), pyvc.obj(rv)
        return vc.new(st, pyvc.Set(lambda t: d(g, r, t)))

    def constant_equal(vc, st, x, value, *a, **kw):
        return pyvc.B(vc.fun("constant_equal", U, U, BOOL)(pyvc.obj(x), pyvc.obj(value)))

    def ancestors(vc, st, outs, *a, **kw):
        s = vc.source(outs, st)
        n = z3.simplify(s.card)
        if not z3.is_int_value(n):
            raise Unsupported("ancestors")
        roots = [pyvc.obj(s.elem(z3.IntVal(k))) for k in range(n.as_long())]
        anc = vc.fun("ancestor", U, U, BOOL)
        return vc.new(st, pyvc.Set(lambda u: z3.Or(*[anc(u, r) for r in roots])))

    def constants(vc, st, xs, *a, **kw):
        return vc.new(st, vc.fresh_seq("inputs"))

    def setup(vc, st):
        vc.strict = False
        vc.pure |= {n for n, o in f.__globals__.items() if inspect.isclass(o) and issubclass(o, Op)}
        fg, node, srng = (vc.fresh(n, U) for n in ("fgraph", "node", "srng"))
        vc.assume(_seqlen(vc, vc.fun("attr:inputs", U, U)(node)) == n_inputs)
        return f, [pyvc.Obj(fg), pyvc.Obj(node), pyvc.Obj(srng)], {"fg": fg, "node": node}

    c = Contract(check, F, setup, {"get_rv_dependents": dependents, "is_constant_equal": constant_equal, "ancestors": ancestors,
                                   "remove_constants": constants})

    def returned(x):
        """[(variable, step, updates)]"""
        v = x.deref(x.o.value)
        if isinstance(v, pyvc.NoneV):
            return []
        if isinstance(v, pyvc.TupleV):
            items = v.items
        else:
            n = z3.simplify(v.n)
            if not z3.is_int_value(n):
                raise Unsupported("the number of steps")
            items = [v.at(z3.IntVal(k)) for k in range(n.as_long())]
        res = []
        for t in items:
            t = x.deref(t)
            if not (isinstance(t, pyvc.TupleV) and len(t.items) == 3):
                raise Unsupported("a returned step")
            res.append([pyvc.obj(x.deref(t.items[0]))] + t.items[1:])
        return res

    if not c.why:
        try:
            if not any(returned(View(c, o)) for o in c.normal):
                c.why = "no steps are returned"
        except Unsupported as e:
            c.why = str(e)
    for name, g in facts:
        def goals(x, g=g):
            r = returned(x)
            yield z3.BoolVal(True)
            if r:
                yield from g(x, r)
        c.ob(name, goals)
    return c


def only_dependent(x, rv, i):
    d = x.vc.fun("dependents", U, U, U, BOOL)
    one = pyvc.obj(pyvc.TupleV([pyvc.Obj(x.node), pyvc.I(i)]))
    return x.all([U], lambda t: d(x.fg, rv, t) == (t == one))


def type_attr(x, name, u):
    return x.attr(name, x.attr("type", u))


def _same(a, b):
    return a == b


def ndim(x, u, n):
    return type_attr(x, "ndim", u) == pyvc.obj(pyvc.I(n))


def _int(n):
    return pyvc.obj(pyvc.I(n))


def _is(x, cls, u):
    return x.vc.fun("isinstance:" + cls, U, BOOL)(u)


def _const(x, u, v):
    return x.vc.fun("constant_equal", U, U, BOOL)(u, _int(v))


def _input(x, u, k):
    return x.vc.seqat(x.attr("inputs", x.attr("owner", u)), k)


def _output(x):
    return x.vc.seqat(x.attr("outputs", x.node), 1)


def finder_contracts(check):
    from aemcmc import conjugates, gibbs

    def conj(idx):
        def dep(x, r):
            for rv, _, _ in r:
                yield only_dependent(x, rv, idx)

        def shape(x, r):
            for rv, _, _ in r:
                yield type_attr(x, "broadcastable", rv) == type_attr(x, "broadcastable", _output(x))

        return [("the prior is used by the observed variable only, as its last parameter", dep),
                ("the prior and the observed variable have the same broadcasting pattern", shape)]

    def regression(idx, others=()):
        def coef(r):
            return r[0][0]

        def dep(x, r):
            yield only_dependent(x, coef(r), idx)

        def prior(x, r):
            b = coef(r)
            yield x.attr("owner", b) != pyvc.NONE
            yield _is(x, "NormalRV", x.attr("op", x.attr("owner", b)))
            yield _const(x, _input(x, b, 3), 0)

        def dims(x, r):
            yield ndim(x, coef(r), 1)
            yield ndim(x, _output(x), 1)

        return [("the coefficients are used by the observed variable only, as its last parameter", dep),
                ("the coefficients are normal with a constant mean of zero", prior),
                ("the coefficients and the observations are vectors", dims), *others]

    def disp_dep(x, r):
        for rv, _, _ in r[1:]:
            yield only_dependent(x, rv, 3)

    def disp_dim(x, r):
        for rv, _, _ in r[1:]:
            yield ndim(x, rv, 0)

    def shrink(x, r):
        for rv, _, _ in r:
            yield only_dependent(x, rv, 4)

    def cauchy(x, r):
        for rv, _, _ in r:
            yield x.attr("owner", rv) != pyvc.NONE
            yield _const(x, _input(x, rv, 3), 0)
            yield _const(x, _input(x, rv, 4), 1)

    def one_each(x, r):
        yield z3.BoolVal(len(r) == 2)
        yield ndim(x, _output(x), 1)
        yield type_attr(x, "broadcastable", r[0][0]) == type_attr(x, "broadcastable", _output(x))

    for mod, name, n, facts in (
        (conjugates, "local_gamma_poisson_posterior", 4, conj(3)),
        (conjugates, "local_beta_binomial_posterior", 5, conj(4)),
        (conjugates, "local_beta_negative_binomial_posterior", 5, conj(4)),
        (gibbs, "bern_logistic_finder", 4, regression(3)),
        (gibbs, "nbinom_logistic_finder", 5, regression(4, [
            ("the dispersion is used by the observed variable only, as its dispersion", disp_dep),
            ("the dispersion is a scalar", disp_dim)])),
        (gibbs, "normal_horseshoe_finder", 5, [
            ("the shrinkage parameters are used by the coefficients only, in their standard deviation", shrink),
            ("the shrinkage parameters are standard half-Cauchy", cauchy),
            ("there is one local shrinkage parameter per coefficient", one_each)]),
    ):
        finder = getattr(mod, name, None)
        if finder is not None:
            finder_contract(check, f"{mod.__name__}.{name}", finder, n, [(f"{name}: {a}", b) for a, b in facts])


# ------------------------------------------------------------------ sampler_finder
def record_contract(check, F):
    """A finder's steps are recorded once and the graph is never changed, for every finder."""
    from aemcmc import rewriting

    def found(vc, st, *args, **kw):
        vc.given = [obj_or_none(vc, a, st) for a in args]
        vc.found = vc.fresh("found", U)
        n = vc.fun("seqlen", U, INT)(vc.found)
        vc.assume(vc.fun("truthy", U, BOOL)(vc.found) == z3.And(vc.found != pyvc.NONE, n > 0))
        return pyvc.Obj(vc.found)

    def obj_or_none(vc, a, st):
        a = vc.deref(a, st)
        return pyvc.obj(a) if isinstance(a, (pyvc.Obj, Inst)) else None

    def setup(vc, st):
        seen = pyvc.Set(vc.fresh_fun("seen", U, BOOL))
        n, at_ = vc.fresh_fun("samplers.len", U, INT), vc.fresh_fun("samplers.at", U, INT, U)
        vc.assume(vc.forall([U], lambda u: n(u) >= 0))
        base = vc.fresh_map("samplers", value=lambda u: Seq(n(u), lambda j: pyvc.Obj(at_(u, j))))
        tracker, fg = Inst("tracker"), Inst("fgraph")
        srng = vc.fresh("srng", U)
        r1, r2 = vc.new(st, seen), vc.new(st, base)
        st.fields.update({("tracker", "rvs_seen"): r1, ("tracker", "rvs_to_samplers"): r2, ("tracker", "srng"): pyvc.Obj(srng),
                          ("fgraph", "sampler_mappings"): tracker})
        node = vc.fresh("node", U)
        outs = vc.fun("attr:outputs", U, U)
        vc.assume(vc.forall([U, INT], lambda u, k: z3.Implies(within(k, _seqlen(vc, outs(u))), vc.fun("attr:owner", U, U)(vc.seqat(outs(u), k)) == u)))
        vc.assume(_seqlen(vc, outs(node)) == 2)
        f = pyvc.Fun(handler=found, name="the finder")
        (o,) = vc.run(vc.function(rewriting.sampler_finder), [pyvc.Obj(vc.fresh("tracks", U))], st=st)
        (o,) = vc.call_fun(o.value, [f], {}, o.state)
        if not isinstance(o.value, pyvc.Fun):
            raise Unsupported("the decorated function")
        st.heap.update(o.state.heap)
        st.fields.update(o.state.fields)
        return o.value, [fg, pyvc.Obj(node)], {"seen": seen, "base": base, "refs": (r1, r2), "node": node, "outs": outs(node), "srng": srng,
                                               "key": pyvc.obj(pyvc.TupleV([pyvc.Obj(z3.Const("name of the finder", U)), pyvc.Obj(vc.seqat(outs(node), 1))]))}

    c = Contract(check, F, setup)

    def none(x):
        return isinstance(x.deref(x.o.value), pyvc.NoneV)

    def graph(x):
        v = x.deref(x.o.value)
        if not none(x):
            yield pyvc.obj(v) == x.outs

    def given(x):
        yield z3.And(x.vc.given[1] == x.node, x.vc.given[2] == x.srng) if len(x.vc.given) == 3 and None not in x.vc.given else z3.BoolVal(False)

    def now(x):
        return [x.o.state.heap[r.i] for r in x.refs]

    def triple(x, i):
        t = x.vc.fun("seqat", U, INT, U)(x.vc.found, i)
        return [x.vc.seqat(t, k) for k in range(3)]

    def count(x):
        return _seqlen(x.vc, x.vc.found)

    def entry(x, i):
        _, post, up = triple(x, i)
        return pyvc.obj(pyvc.TupleV([pyvc.Obj(z3.Const("name of the finder", U)), pyvc.Obj(post), pyvc.Obj(up)]))

    def kept(x):
        _, m = now(x)
        n0 = lambda u: z3.If(x.base.mem(u), x.base.get(u).n, 0)  # noqa: E731
        yield x.all([U], lambda u: z3.Implies(x.base.mem(u), m.mem(u)))
        yield x.all([U, INT], lambda u, k: z3.Implies(z3.And(x.base.mem(u), within(k, n0(u))), z3.And(k < m.get(u).n, pyvc.obj(m.get(u).at(k)) == pyvc.obj(x.base.get(u).at(k)))))

    def recorded(x):
        _, m = now(x)
        n0 = lambda u: z3.If(x.base.mem(u), x.base.get(u).n, 0)  # noqa: E731
        if none(x):
            # nothing is lost
            yield z3.Or(x.seen.mem(x.key), z3.Not(x.vc.fun("truthy", U, BOOL)(x.vc.found)))
            return
        yield x.all([INT], lambda i: z3.Implies(within(i, count(x)), z3.And(m.mem(triple(x, i)[0]), x.some([INT], lambda k: z3.And(
            n0(triple(x, i)[0]) <= k, k < m.get(triple(x, i)[0]).n, pyvc.obj(m.get(triple(x, i)[0]).at(k)) == entry(x, i))))))

    def nothing_else(x):
        _, m = now(x)
        n0 = lambda u: z3.If(x.base.mem(u), x.base.get(u).n, 0)  # noqa: E731
        if none(x):
            yield x.all([U], lambda u: z3.Implies(m.mem(u), z3.And(x.base.mem(u), m.get(u).n == x.base.get(u).n)))
            return
        yield x.all([U, INT], lambda u, k: z3.Implies(z3.And(m.mem(u), n0(u) <= k, k < m.get(u).n), x.some([INT], lambda i: z3.And(
            within(i, count(x)), triple(x, i)[0] == u, pyvc.obj(m.get(u).at(k)) == entry(x, i)))))

    def once(x):
        s, _ = now(x)
        if none(x):
            yield x.all([U], lambda u: s.mem(u) == x.seen.mem(u))
        else:
            yield z3.Not(x.seen.mem(x.key))
            yield x.all([U], lambda u: s.mem(u) == z3.Or(x.seen.mem(u), u == x.key))

    c.ob("a finder leaves the node as it is", graph)
    c.ob("the finder is given the node and the tracker's stream", given)
    c.ob("the steps recorded before are kept", kept)
    c.ob("every step a finder returns is recorded for its variable", recorded)
    c.ob("nothing else is recorded", nothing_else)
    c.ob("the steps of a finder and a variable are recorded once", once)
    return c


# ------------------------------------------------------------------ remove_constants
def remove_constants_contract(check, F):
    from aemcmc import utils

    if getattr(utils, "remove_constants", None) is None:
        return None

    def tensor(vc, st, x, *a, **kw):
        return pyvc.Obj(vc.fun("as_tensor", U, U)(pyvc.obj(x)))

    def setup(vc, st):
        xs = vc.fresh_seq("inputs")
        return utils.remove_constants, [xs], {"xs": xs}

    c = Contract(check, F, setup, {"as_tensor_variable": tensor, "as_tensor": tensor})

    def fixed(x, u):
        return z3.Or(_is(x, "Constant", u), _is(x, "SharedVariable", u))

    def t(x, j):
        return x.vc.fun("as_tensor", U, U)(pyvc.obj(x.xs.at(j)))

    def kept(x):
        n, a = x.seq(x.o.value)
        yield x.all([INT], lambda j: z3.Implies(z3.And(within(j, x.xs.n), z3.Not(fixed(x, t(x, j)))), x.some([INT], lambda k: z3.And(within(k, n), a(k) == t(x, j)))))

    def only(x):
        n, a = x.seq(x.o.value)
        yield x.all([INT], lambda k: z3.Implies(within(k, n), z3.And(z3.Not(fixed(x, a(k))), x.some([INT], lambda j: z3.And(within(j, x.xs.n), a(k) == t(x, j))))))

    def order(x):
        """Positions of the results among the inputs increase."""
        n, a = x.seq(x.o.value)
        # the positions are those of the loop or comprehension that made the result
        w = getattr(x.value(), "origin", None)
        if w is None:
            raise Unsupported("the positions")
        yield x.all([INT], lambda k: z3.Implies(within(k, n), z3.And(within(w(k), x.xs.n), a(k) == t(x, w(k)))))
        yield x.all([INT, INT], lambda i, k: z3.Implies(z3.And(0 <= i, i < k, k < n), w(i) < w(k)))

    c.ob("every input that is no constant is kept", kept)
    c.ob("only inputs that are no constants are kept", only)
    c.ob("the inputs stay in order", order)
    return c


# ------------------------------------------------------------------ get_rv_updates
def rv_updates_contract(check, F, parts=("values", "frame")):
    from aemcmc import utils

    if getattr(utils, "get_rv_updates", None) is None:
        return None

    def ancestors(vc, st, outs, *a, **kw):
        vc.roots = vc.deref(outs, st)
        vc.ancestors = vc.fresh_seq("ancestors")
        return vc.ancestors

    def setup(vc, st):
        srng = vc.fresh("srng", U)
        upd = vc.fresh_map("state_updates")
        ref = vc.new(st, upd)
        st.fields[("srng", "state_updates")] = ref
        rvs = vc.fresh_seq("rvs")
        return utils.get_rv_updates, [Inst("srng"), pyvc.Star(rvs)], {"upd": upd, "ref": ref, "rvs": rvs}

    c = Contract(check, F, setup, {"ancestors": ancestors})
    default = lambda x, u: x.attr("default_update", u)  # noqa: E731
    truthy = lambda x, u: x.vc.fun("truthy", U, BOOL)(u)  # noqa: E731

    def stream(x, u):
        return z3.And(x.upd.mem(u), truthy(x, get(x.upd, u)))

    def rng(x, u):
        n, a = x.seq(x.vc.ancestors)
        return x.some([INT], lambda j: z3.And(within(j, n), a(j) == u, _is(x, "SharedVariable", u), z3.Or(truthy(x, default(x, u)), stream(x, u))))

    def domain(x):
        m = x.value()
        n, a = x.seq(x.vc.ancestors)
        yield x.all([U], lambda u: z3.Implies(m.mem(u), rng(x, u)))
        yield x.all([INT], lambda j: z3.Implies(z3.And(within(j, n), _is(x, "SharedVariable", a(j)), z3.Or(truthy(x, default(x, a(j))), stream(x, a(j)))), m.mem(a(j))))

    def values(x):
        m = x.value()
        yield x.all([U], lambda u: z3.Implies(z3.And(m.mem(u), truthy(x, default(x, u))), get(m, u) == default(x, u)))
        yield x.all([U], lambda u: z3.Implies(z3.And(m.mem(u), z3.Not(truthy(x, default(x, u)))), get(m, u) == get(x.upd, u)))

    def roots(x):
        n, a = x.seq(x.vc.roots)
        yield n == x.rvs.n
        yield x.all([INT], lambda j: z3.Implies(within(j, n), a(j) == pyvc.obj(x.rvs.at(j))))

    def frame(x):
        m = x.o.state.heap[x.ref.i]
        if m is not x.upd:
            yield x.all([U], lambda u: z3.And(m.mem(u) == x.upd.mem(u), z3.Implies(m.mem(u), get(m, u) == get(x.upd, u))))

    if "values" in parts:
        c.ob("the variables' own ancestors are searched", roots)
        c.ob("exactly the shared variables with an update are returned", domain)
        c.ob("each is given its own update", values)
    if "frame" in parts:
        c.ob("the stream's updates are unchanged", frame)
        c.ob("no attribute of any object is assigned to", no_writes)
    return c


# ------------------------------------------------------------------ sample_prior
def sample_prior_contract(check, F, parts=("values", "frame")):
    """The loop draws the given variables with the updates of their own generators, num_samples times."""
    from aemcmc import sample

    def updates(vc, st, srng, *rvs):
        vc.updates_of = (pyvc.obj(srng), vc.deref(rvs[0].v, st) if len(rvs) == 1 and isinstance(rvs[0], pyvc.Star) else None)
        vc.rv_updates = vc.fresh("rv_updates", U)
        return pyvc.Obj(vc.rv_updates)

    def scan(vc, st, fn=None, *args, n_steps=None, sequences=None, outputs_info=None, non_sequences=None, **kw):
        if args or sequences is not None or outputs_info is not None or non_sequences is not None or not isinstance(fn, pyvc.Fun):
            raise Unsupported("arguments of scan")
        (o,) = vc.call_fun(fn, [], {}, st)
        v = vc.deref(o.value, o.state)
        if o.kind != "return" or not (isinstance(v, pyvc.TupleV) and len(v.items) == 2):
            raise Unsupported("result of the loop's body")
        vc.body = [vc.deref(y, o.state) for y in v.items]
        vc.n_steps = pyvc.obj(n_steps)
        vc.samples, vc.scan_updates = vc.fresh("samples", U), vc.fresh("scan_updates", U)
        return pyvc.TupleV([pyvc.Obj(vc.samples), pyvc.Obj(vc.scan_updates)])

    def setup(vc, st):
        srng, n, rvs = vc.fresh("srng", U), vc.fresh("num_samples", U), vc.fresh_seq("rvs")
        return sample.sample_prior, [pyvc.Obj(srng), pyvc.Obj(n), pyvc.Star(rvs)], {"srng": srng, "n": n, "rvs": rvs}

    c = Contract(check, F, setup, {"get_rv_updates": updates, "scan": scan, "aesara.scan": scan})

    def same(x, s):
        n, a = x.seq(s)
        yield n == x.rvs.n
        yield x.all([INT], lambda j: z3.Implies(within(j, n), a(j) == pyvc.obj(x.rvs.at(j))))

    def drawn(x):
        yield from same(x, x.vc.body[0])
        yield x.vc.n_steps == x.n

    def own(x):
        yield z3.And(pyvc.obj(x.vc.body[1]) == x.vc.rv_updates, x.vc.updates_of[0] == x.srng)
        yield from same(x, x.vc.updates_of[1])

    def result(x):
        v = x.value()
        yield z3.And(pyvc.obj(v.items[0]) == x.vc.samples, pyvc.obj(v.items[1]) == x.vc.scan_updates)

    if "values" in parts:
        c.ob("each iteration draws the given variables, in order", drawn)
        c.ob("each iteration advances the generators of the given variables", own)
        c.ob("all samples are returned, with the updates of the loop", result)
    if "frame" in parts:
        c.ob("no attribute of any object is assigned to", no_writes)
    return c


# ------------------------------------------------------------------ nuts.step
def nuts_step_contract(check, F, parts=("values",)):
    """The bookkeeping of the gradient-based step: for every set of variables and every realization, variable, transform,
    placeholder, position in the flat state and new value belong together."""
    from aemcmc import nuts

    def transform(vc, u):
        return vc.fun("default_transform", U, U)(u)

    def back(vc, u, v):
        return vc.fun("backward", U, U, U, U)(u, v, transform(vc, u))

    def get_transform(vc, st, rv, *a, **kw):
        return pyvc.Obj(transform(vc, pyvc.obj(rv)))

    def forward(vc, st, rv, vv, t, m=None, **kw):
        vc.forward_maps.append((list(vc.scope), list(st.pc), vc.deref(m if m is not None else kw.get("rvs_to_values"), st)))
        return pyvc.Obj(vc.fun("forward", U, U, U, U)(pyvc.obj(rv), pyvc.obj(vv), pyvc.obj(t)))

    def backward(vc, st, rv, vv, t, m=None, **kw):
        vc.backward_maps.append((list(st.pc), pyvc.obj(rv), vc.deref(m if m is not None else kw.get("rvs_to_values"), st)))
        return pyvc.Obj(vc.fun("backward", U, U, U, U)(pyvc.obj(rv), pyvc.obj(vv), pyvc.obj(t)))

    def clone(vc, st, ins, outs, *a, memo=None, **kw):
        if memo is None:
            copy = vc.fresh_fun("copy", U, U)
            vc.copy = copy
            vc.assume(vc.forall([U, U], lambda u, v: z3.Implies(copy(u) == copy(v), u == v)))
            m = vc.fresh_map("copies", value=lambda u: pyvc.Obj(copy(u)))
            s = vc.source(outs, st)
            vc.axiom(vc.forall(s.sorts, lambda *b: z3.Implies(s.guard(*b), m.mem(pyvc.obj(s.elem(*b))))))
            return vc.new(st, m)
        vc.memo = vc.deref(memo, st)
        s = vc.source(outs, st)
        vc.replaced_in = [pyvc.obj(s.elem(z3.IntVal(0)))]
        m = vc.fresh_map("replaced")
        vc.axiom(vc.forall(s.sorts, lambda *b: z3.Implies(s.guard(*b), m.mem(pyvc.obj(s.elem(*b))))))
        vc.replaced = get(m, vc.replaced_in[0])
        return vc.new(st, m)

    def values_rewrite(vc, st, m, *a, **kw):
        vc.rewrites = vc.deref(m, st)
        vc.rewrite = vc.fresh("rewrite", U)
        return pyvc.Obj(vc.rewrite)

    def logprob(vc, st, *rvs, realized=None, extra_rewrites=None, **kw):
        if len(rvs) != 1 or not isinstance(rvs[0], pyvc.Star):
            raise Unsupported("arguments of joint_logprob")
        s, p = vc.gen(rvs[0].v, st)
        vc.density_of = vc.filtered(s, p, s.elem)
        vc.density_given = vc.deref(realized, st)
        vc.density_rewrite = pyvc.obj(extra_rewrites)
        vc.logprob = vc.fresh("logprob", U)
        vc.placeholders = vc.fresh_seq("placeholders")
        vc.assume(vc.placeholders.n == vc.density_of.n)
        vc.assume(vc.forall([INT, INT], lambda i, j: z3.Implies(z3.And(within(i, vc.placeholders.n), within(j, vc.placeholders.n), vc.ph(i) == vc.ph(j)), i == j)))
        return pyvc.TupleV([pyvc.Obj(vc.logprob), vc.placeholders])

    def raveled(vc, st, values, *a, **kw):
        vc.raveled = vc.deref(values, st)
        return Inst("rp")

    def part(vc, q, i):
        return vc.fun("part", U, INT, U)(q, i)

    def ravel(vc, st, values, *a, **kw):
        vc.initial = vc.deref(values, st)
        vc.initial_q = vc.fresh("initial_q", U)
        return pyvc.Obj(vc.initial_q)

    def unravel(vc, st, q, *a, **kw):
        q = pyvc.obj(q)
        ref = vc.deref(st.fields[("rp", "ref_params")], st) if ("rp", "ref_params") in st.fields else vc.raveled
        n, a = vc.source(ref, st).card, lambda i: pyvc.obj(vc.source(ref, st).elem(i))  # noqa: E731
        idx = vc.fresh_fun("index", U, INT)
        distinct = vc.forall([INT, INT], lambda i, j: z3.Implies(z3.And(within(i, n), within(j, n), a(i) == a(j)), i == j))
        vc.axiom(z3.Implies(distinct, vc.forall([INT], lambda i: z3.Implies(within(i, n), idx(a(i)) == i))))
        m = vc.fresh_map("unraveled", value=lambda u: pyvc.Obj(part(vc, q, idx(u))))
        m = pyvc.Map(lambda u: z3.And(within(idx(u), n), a(idx(u)) == u), m.get, m.pos, m.top)
        return vc.new(st, m)

    def density(vc, st, fn):
        if not isinstance(fn, pyvc.Fun) or fn.node is None:
            raise Unsupported("the log-density")
        q = vc.fresh("q", U)
        (o,) = vc.call_fun(fn, [pyvc.Obj(q)], {}, st)
        vc.densities.append((q, pyvc.obj(vc.deref(o.value, o.state)), vc.replaced_in[0], vc.replaced, vc.memo, list(o.state.pc)))

    def new_kernel(vc, st, srng, fn, *a, **kw):
        density(vc, st, fn)
        vc.kernel, vc.kernel_srng = vc.fresh("kernel", U), pyvc.obj(srng)
        return pyvc.Obj(vc.kernel)

    def new_state(vc, st, q, fn, *a, **kw):
        density(vc, st, fn)
        vc.state, vc.state_q = vc.fresh("state", U), pyvc.obj(q)
        return pyvc.Obj(vc.state)

    def apply(vc, st, f, *args, **kw):
        if len(args) != 3 or not isinstance(args[0], pyvc.Star) or kw:
            raise Unsupported("application of the kernel")
        vc.applied = [pyvc.obj(f), pyvc.obj(vc.deref(args[0].v, st))] + [pyvc.obj(a) for a in args[1:]]
        vc.new_state, vc.kernel_updates = vc.fresh("new_state", U), vc.fresh("updates", U)
        return pyvc.TupleV([pyvc.Obj(vc.new_state), pyvc.Obj(vc.kernel_updates)])

    def topo(vc, st, ins, outs, *a, **kw):
        s = vc.source(outs, st)
        nodes = vc.fresh_seq("nodes")
        vc.nodes = nodes
        at_ = lambda j, k: vc.fun("seqat", U, INT, U)(outputs_of(vc, j), k)  # noqa: E731
        vc.assume(vc.forall(s.sorts, lambda *b: z3.Implies(s.guard(*b), (lambda u: z3.And(
            within(vc.node_of(u), nodes.n), within(vc.out_of(u), _seqlen(vc, outputs_of(vc, vc.node_of(u)))), at_(vc.node_of(u), vc.out_of(u)) == u))(pyvc.obj(s.elem(*b))))))
        vc.assume(vc.forall([INT, INT], lambda j, k: z3.Implies(z3.And(within(j, nodes.n), within(k, _seqlen(vc, outputs_of(vc, j)))), vc.node_of(at_(j, k)) == j)))
        vc.assume(vc.forall([U, U], lambda u, v: z3.Implies(vc.depends(v, u), vc.node_of(u) < vc.node_of(v))))
        return nodes

    def outputs_of(vc, j):
        return vc.fun("attr:outputs", U, U)(pyvc.obj(vc.nodes.at(j)))

    def new_q(vc):
        return vc.seqat(vc.new_state, 0)

    def order(vc, x):
        """(n, the j-th variable to sample)"""
        n, w = pyvc.root(x.ts).enum
        return n, lambda j: w(j)[0]

    def new_value(vc, x, u, M):
        """`u`, if it has a value in M, has the one made from its own part of the new state."""
        n, w = order(vc, x)
        return vc.forall([INT], lambda j: z3.Implies(z3.And(within(j, n), w(j) == u), M == back(vc, u, part(vc, new_q(vc), j))))

    def setup(vc, st):
        ts, rz = vc.fresh_map("to_sample"), vc.fresh_map("realized")
        vc.forward_maps, vc.backward_maps, vc.densities = [], [], []
        vc.ph = lambda i: pyvc.obj(vc.placeholders.at(i))
        vc.node_of, vc.out_of, vc.depends = vc.fresh_fun("node_of", U, INT), vc.fresh_fun("out_of", U, INT), vc.fresh_fun("depends", U, U, BOOL)
        vc.assume(vc.forall([U], lambda u: z3.Not(z3.And(ts.mem(u), rz.mem(u)))))
        a, b = vc.new(st, ts), vc.new(st, rz)
        ctx = {"ts": ts, "rz": rz, "refs": (a, b), "srng": vc.fresh("srng", U)}
        x = type("X", (), ctx)

        def table(L):
            """The dict that the loop fills."""
            names = {t.value.id for n in ast.walk(node) if isinstance(n, ast.For) for s in ast.walk(n) if isinstance(s, ast.Assign)
                     for t in s.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
            if len(names) != 1:
                raise Unsupported("the dict that the loop fills")
            return L.local(names.pop())

        def common(M):
            return [
                vc.forall([U], lambda u: z3.Implies(M.mem(u), z3.Or(rz.mem(u), ts.mem(u)))),
                vc.forall([U], lambda u: z3.Implies(rz.mem(u), z3.And(M.mem(u), get(M, u) == get(rz, u)))),
                vc.forall([U], lambda u: z3.Implies(z3.And(ts.mem(u), M.mem(u)), new_value(vc, x, u, get(M, u)))),
            ]

        def done(M, J):
            return vc.forall([U], lambda u: z3.Implies(z3.And(ts.mem(u), vc.node_of(u) < J), M.mem(u)))

        def outer(L):
            vc.outer_index = L.j
            M = table(L)
            return common(M) + [done(M, L.j)]

        def inner(L):
            M = table(L)
            return common(M) + [done(M, vc.outer_index), vc.forall([U], lambda u: z3.Implies(
                z3.And(ts.mem(u), vc.node_of(u) == vc.outer_index, vc.out_of(u) < L.j), M.mem(u)))]

        node = vc.function(nuts.step).node
        ctx["loops"] = {"for0": outer, "for1": inner}
        return nuts.step, [pyvc.Obj(ctx["srng"]), a, b], ctx

    c = Contract(check, F, setup, {
        "get_transform": get_transform, "transform_forward": forward, "transform_backward": backward, "clone_get_equiv": clone,
        "TransformValuesRewrite": values_rewrite, "joint_logprob": logprob, "RaveledParamsMap": raveled,
        "ravel_params": ravel, "unravel_params": unravel, "new_kernel": new_kernel, "new_state": new_state, "apply": apply, "io_toposort": topo})

    def result(x):
        v = x.value()
        if not (isinstance(v, pyvc.TupleV) and len(v.items) == 3):
            raise Unsupported("result")
        return [x.deref(y) for y in v.items]

    def values(x):
        r = result(x)[0]
        n, w = order(x.vc, x)
        yield x.all([U], lambda u: r.mem(u) == x.ts.mem(u))
        yield x.all([INT], lambda j: z3.Implies(within(j, n), get(r, w(j)) == back(x.vc, w(j), part(x.vc, new_q(x.vc), j))))

    def initial(x):
        n, w = order(x.vc, x)
        fw = lambda u: x.vc.fun("forward", U, U, U, U)(u, get(x.ts, u), transform(x.vc, u))  # noqa: E731
        for s in (x.vc.raveled, x.vc.initial):
            k, a = x.seq(s)
            yield k == n
            yield x.all([INT], lambda j: z3.Implies(within(j, n), a(j) == fw(w(j))))

    def application(x):
        _, up, ps = result(x)
        yield z3.And(x.vc.applied[0] == x.vc.kernel, x.vc.applied[1] == x.vc.state, x.vc.state_q == x.vc.initial_q, x.vc.kernel_srng == x.srng)
        yield z3.And(*[pyvc.obj(p) == a for p, a in zip(ps.items, x.vc.applied[2:])])
        yield z3.And(pyvc.obj(up) == x.vc.kernel_updates, z3.BoolVal(len(ps.items) == 2))

    def joint(x):
        n, w = order(x.vc, x)
        k, a = x.seq(x.vc.density_of)
        yield k == n
        yield x.all([INT], lambda j: z3.Implies(within(j, n), a(j) == x.vc.copy(w(j))))
        g, cp = x.vc.density_given, x.vc.copy
        yield x.all([U], lambda u: z3.Implies(x.rz.mem(u), z3.And(g.mem(cp(u)), get(g, cp(u)) == get(x.rz, u))))
        yield x.all([U], lambda u: z3.Implies(g.mem(u), x.some([U], lambda v: z3.And(x.rz.mem(v), cp(v) == u))))
        t = x.vc.rewrites
        yield x.all([U], lambda u: z3.Implies(x.ts.mem(u), z3.And(t.mem(cp(u)), get(t, cp(u)) == transform(x.vc, u))))
        yield x.all([U], lambda u: z3.Implies(t.mem(u), x.some([U], lambda v: z3.And(x.ts.mem(v), cp(v) == u))))
        yield x.vc.density_rewrite == x.vc.rewrite

    def flat(x):
        n, w = order(x.vc, x)
        if len(x.vc.densities) < 2:
            raise Unsupported("the log-density is not seen")
        for q, value, given, replaced, memo, pc in x.vc.densities:
            yield z3.Implies(z3.And(*pc), z3.And(value == replaced, given == x.vc.logprob))
            yield z3.Implies(z3.And(*pc), x.all([INT], lambda j: z3.Implies(within(j, n), z3.And(memo.mem(x.vc.ph(j)), get(memo, x.vc.ph(j)) == part(x.vc, q, j)))))

    def read_forward(x):
        if not x.vc.forward_maps:
            raise Unsupported("no forward transform is seen")
        for sc, pc, m in x.vc.forward_maps:
            f = x.all([U], lambda u: z3.And(
                z3.Implies(x.rz.mem(u), z3.And(m.mem(u), get(m, u) == get(x.rz, u))),
                z3.Implies(x.ts.mem(u), z3.And(m.mem(u), get(m, u) == get(x.ts, u)))))
            yield z3.ForAll(sc, z3.Implies(z3.And(*pc), f)) if sc else z3.Implies(z3.And(*pc), f)

    def read_backward(x):
        if not x.vc.backward_maps:
            raise Unsupported("no backward transform is seen")
        for pc, rv, m in x.vc.backward_maps:
            pc = z3.And(*pc)
            yield z3.Implies(pc, x.all([U], lambda u: z3.Implies(x.rz.mem(u), z3.And(m.mem(u), get(m, u) == get(x.rz, u)))))
            yield z3.Implies(pc, x.all([U], lambda u: z3.Implies(z3.And(x.ts.mem(u), x.vc.depends(rv, u)), z3.And(m.mem(u), new_value(x.vc, x, u, get(m, u))))))

    def frame(x):
        for r, m in zip(x.refs, (x.ts, x.rz)):
            m2 = x.o.state.heap[r.i]
            if m2 is not m:
                yield x.all([U], lambda u: z3.And(m2.mem(u) == m.mem(u), z3.Implies(m.mem(u), get(m, u) == get(m2, u))))

    c.invariants("the loop invariants of the backward transforms are established and preserved")
    c.ob("each variable's new value is made from its own part of the new state, with its own transform", values)
    c.ob("the initial state is made from the variables' own values and transforms", initial)
    c.ob("the kernel is applied to the initial state and the returned parameters", application)
    c.ob("the log-density is that of the variables given the realized values, with their transforms", joint)
    c.ob("each placeholder of the log-density is replaced by its part of the state", flat)
    c.ob("forward transforms read the current values", read_forward)
    c.ob("backward transforms read the realized values and the new values", read_backward)
    c.ob("the given maps are unchanged", frame)
    return c


def transform_contracts(check, F):
    """The transforms of the gradient-based step read the values of the variables their parameters depend on."""
    from aemcmc import nuts

    def owner_inputs(vc, u):
        return vc.fun("attr:inputs", U, U)(vc.fun("attr:owner", U, U)(u))

    def clone(vc, st, ins, outs, *a, memo=None, **kw):
        if isinstance(memo, pyvc.NoneV) or memo is None:
            raise Unsupported("a copy without values")
        if any(isinstance(kw.get(k), pyvc.B) and not z3.is_false(kw[k].t) for k in ("copy_inputs", "copy_orphans")) or a:
            raise Unsupported("options of the copy")
        given = vc.deref(memo, st)
        vc.memos.append((memo, given))
        copy = vc.fresh_fun("copy", U, U)
        m = vc.fresh_map("copied", value=lambda u: pyvc.Obj(copy(u)))
        s = vc.source(outs, st)
        vc.axiom(vc.forall(s.sorts, lambda *b: z3.Implies(s.guard(*b), m.mem(pyvc.obj(s.elem(*b))))))
        vc.axiom(vc.forall([U], lambda u: z3.Implies(given.mem(u), z3.And(m.mem(u), copy(u) == get(given, u)))))
        st.heap[memo.i] = m  # the table that is passed is extended
        vc.copies = copy
        return memo

    def realize(known):
        def setup(vc, st):
            rv = vc.fresh("rv", U)
            vc.memos = []
            vals = vc.fresh_map("values")
            ref = vc.new(st, vals)
            st.heap[ref.i] = vals
            return nuts.realize_rv_inputs, [pyvc.Obj(rv), ref if known else pyvc.NoneV()], {"rv": rv, "vals": vals, "ref": ref}

        c = Contract(check, F + ".realize_rv_inputs", setup, {"clone_get_equiv": clone})

        def result(x):
            n, a = x.seq(x.value())
            ins = owner_inputs(x.vc, x.rv)
            yield n == _seqlen(x.vc, ins)
            i = lambda j: x.vc.seqat(ins, j)  # noqa: E731
            if known:
                yield x.all([INT], lambda j: z3.Implies(z3.And(within(j, n), x.vals.mem(i(j))), a(j) == get(x.vals, i(j))))
                yield x.all([INT], lambda j: z3.Implies(z3.And(within(j, n), z3.Not(x.vals.mem(i(j)))), a(j) == x.vc.copies(i(j))))
            else:
                yield x.all([INT], lambda j: z3.Implies(within(j, n), a(j) == x.vc.copies(i(j))))
            yield z3.BoolVal(len(x.vc.memos) == 1)

        def all_values(x):
            (_, given), = x.vc.memos
            yield x.all([U], lambda u: given.mem(u) == (x.vals.mem(u) if known else z3.BoolVal(False)))
            yield x.all([U], lambda u: z3.Implies(given.mem(u), get(given, u) == get(x.vals, u)))

        def frame(x):
            m = x.o.state.heap[x.ref.i]
            yield x.all([U], lambda u: z3.And(m.mem(u) == x.vals.mem(u), z3.Implies(m.mem(u), get(m, u) == get(x.vals, u))))

        what = "with values" if known else "without values"
        c.ob(f"{what}: the i-th entry is the i-th parameter, at its value if it has one", result)
        c.ob(f"{what}: the copied graph has exactly the given values", all_values)
        if known:
            c.ob("the given values are unchanged", frame)
        return c

    def realize_inputs(vc, st, rv, m=None, **kw):
        m = kw.get("rvs_to_values", m)
        vc.realized_with = (pyvc.obj(rv), m)
        n = _seqlen(vc, owner_inputs(vc, pyvc.obj(rv)))
        at = vc.fresh_fun("realized", INT, U)
        vc.at = at
        return vc.new(st, pyvc.Seq(n, lambda j: pyvc.Obj(at(j))))

    def direction(name):
        def setup(vc, st):
            rv, vv, t = vc.fresh("rv", U), vc.fresh("vv", U), vc.fresh("transform", U)
            vc.realized_with = vc.applied_to = None
            ref = vc.new(st, vc.fresh_map("values"))
            return getattr(nuts, "transform_" + name), [pyvc.Obj(rv), pyvc.Obj(vv), pyvc.Obj(t), ref], {"rv": rv, "vv": vv, "t": t, "ref": ref}

        def apply(vc, st, o, v, *rest, **kw):
            if kw or len(rest) != 1 or not isinstance(rest[0], pyvc.Star):
                raise Unsupported("arguments of the transform")
            vc.applied_to = (pyvc.obj(o), pyvc.obj(v), vc.deref(rest[0].v, st))
            vc.transformed = vc.fresh("transformed", U)
            return pyvc.Obj(vc.transformed)

        apply.method = True
        c = Contract(check, f"{F}.transform_{name}", setup, {"realize_rv_inputs": realize_inputs, name: apply})
        truthy = lambda x: x.vc.fun("truthy", U, BOOL)(x.t)  # noqa: E731

        def result(x):
            yield z3.Implies(z3.Not(truthy(x)), pyvc.obj(x.value()) == x.vv)
            if x.vc.applied_to is None:
                raise Unsupported("no transform is applied")
            o, v, args = x.vc.applied_to
            yield z3.Implies(truthy(x), z3.And(pyvc.obj(x.value()) == x.vc.transformed, o == x.t, v == x.vv))
            n, a = x.seq(args)
            yield z3.Implies(truthy(x), z3.And(n == _seqlen(x.vc, owner_inputs(x.vc, x.rv)), x.all([INT], lambda j: z3.Implies(within(j, n), a(j) == x.vc.at(j)))))
            r, m = x.vc.realized_with
            yield z3.Implies(truthy(x), z3.And(r == x.rv, z3.BoolVal(isinstance(m, pyvc.Ref) and m.i == x.ref.i)))

        c.ob(f"the transform's {name} map is applied to the value and the variable's realized parameters", result)
        return c

    def default():
        def setup(vc, st):
            rv = vc.fresh("rv", U)
            return nuts.get_transform, [pyvc.Obj(rv)], {"rv": rv}

        def transformed(vc, st, op, node, *a, **kw):
            vc.asked = (pyvc.obj(op), pyvc.obj(node))
            vc.answer = vc.fresh("transformed", U)
            return pyvc.Obj(vc.answer)

        c = Contract(check, F + ".get_transform", setup, {"_default_transformed_rv": transformed})

        def result(x):
            owner = x.attr("owner", x.rv)
            yield z3.And(x.vc.asked[0] == x.attr("op", owner), x.vc.asked[1] == owner)
            tr = x.vc.fun("truthy", U, BOOL)(x.vc.answer)
            v = pyvc.obj(x.value())
            yield z3.Implies(tr, v == x.attr("transform", x.attr("op", x.vc.answer)))
            yield z3.Implies(z3.Not(tr), v == pyvc.NONE)

        c.ob("the default transform is the one of the transformed variable, or none", result)
        return c

    realize(True)
    realize(False)
    direction("forward")
    direction("backward")
    return default()
