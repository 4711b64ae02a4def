"""Utilities on Aesara graphs: flattening and draw extraction."""
import numpy as np
from aesara.compile.builders import OpFromGraph
from aesara.graph.basic import Apply, Constant, Variable, ancestors, io_toposort
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.shape import SpecifyShape


def flatten(outputs, subst=None, collect=None):
    """Expand every `OpFromGraph`; random draws keep one node per draw.

    `collect` is filled with the (generator, new state) pairs that Aesara's inlining of the
    expanded `OpFromGraph`s makes the updates of the compiled function.
    """
    top = {}
    subst = dict(subst or {})

    def go(var, env):
        # env: dict var -> flattened var (one dict per expansion level)
        stack = [var]
        while stack:
            v = stack[-1]
            if v in env:
                stack.pop()
                continue
            if v.owner is None:
                env[v] = subst.get(v, v)
                stack.pop()
                continue
            if v in subst:
                env[v] = subst[v]
                stack.pop()
                continue
            todo = [i for i in v.owner.inputs if i not in env]
            if todo:
                stack.extend(todo)
                continue
            node = v.owner
            ins = [env[i] for i in node.inputs]
            if isinstance(node.op, OpFromGraph):
                inner_in = node.op.inner_inputs
                if len(inner_in) != len(ins):
                    raise ValueError("OpFromGraph input mismatch")
                inner_env = dict(zip(inner_in, ins))
                for o, io in zip(node.outputs, node.op.inner_outputs):
                    env[o] = go(io, inner_env)
                if collect is not None:
                    fg = node.op.fgraph
                    for oi, ii in getattr(fg, "update_mapping", {}).items():
                        collect.append((ins[ii], go(fg.outputs[oi], inner_env)))
            elif all(a is b for a, b in zip(ins, node.inputs)):
                for o in node.outputs:
                    env[o] = o
            else:
                key = (id(node.op), tuple(id(i) for i in ins))
                new = Apply(node.op, ins, [o.clone() for o in node.outputs])
                for o, no in zip(node.outputs, new.outputs):
                    env[o] = no
            stack.pop()
        return env[var]

    return [go(o, top) for o in outputs]


def draws(outputs, blockers=()):
    """All random-variable nodes `outputs` depend on, in topological order."""
    return [n for n in io_toposort(list(blockers), list(outputs)) if isinstance(n.op, RandomVariable)]


def leaves(outputs, blockers=()):
    blockers = set(blockers)
    seen, res, stack = set(), [], list(outputs)
    while stack:
        v = stack.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.owner is None or v in blockers:
            res.append(v)
        else:
            stack.extend(v.owner.inputs)
    return res


def cons(outputs, subst=None):
    """Flatten and share: equal computations become one node (equal draws one draw).

    `OpFromGraph`s clone the graphs they contain, so one step's graph may occur several times
    in the graphs of the later steps; the copies use the same generators and are the same
    random variables.  Returns the new outputs.
    """
    flat = flatten(outputs, subst)
    table, const, env = {}, {}, {}
    for node in io_toposort([], [v for v in flat if v.owner is not None]):
        for i in node.inputs:
            if i.owner is None and i not in env:
                if isinstance(i, Constant):
                    env[i] = const.setdefault(i.signature(), i)
                else:
                    env[i] = i
        ins = [env[i] for i in node.inputs]
        key = (node.op, tuple(id(i) for i in ins))
        new = table.get(key)
        if new is None or any(a.type != b.type for a, b in zip(new.outputs, node.outputs)):
            if all(a is b for a, b in zip(ins, node.inputs)):
                new = node
            else:
                new = Apply(node.op, ins, [o.clone() for o in node.outputs])
            table[key] = new
        for o, no in zip(node.outputs, new.outputs):
            env[o] = no
    return [env.get(v, v) for v in flat]


def cut(outputs, subst):
    """Replace the (intermediate) variables in `subst`, rebuilding what depends on them."""
    env = {}

    def go(root):
        stack = [root]
        while stack:
            v = stack[-1]
            if v in env:
                stack.pop()
                continue
            if v in subst:
                env[v] = subst[v]
            elif v.owner is None:
                env[v] = v
            else:
                todo = [i for i in v.owner.inputs if i not in env]
                if todo:
                    stack.extend(todo)
                    continue
                ins = [env[i] for i in v.owner.inputs]
                if all(a is b for a, b in zip(ins, v.owner.inputs)):
                    for o in v.owner.outputs:
                        env.setdefault(o, o)
                else:
                    new = Apply(v.owner.op, ins, [o.clone() for o in v.owner.outputs])
                    for o, no in zip(v.owner.outputs, new.outputs):
                        env.setdefault(o, subst.get(o, no))
            stack.pop()
        return env[root]

    return [go(o) for o in outputs]


def congruent(xs, ys, leafmap, rngs=None, why=None):
    """True if the flattened graphs `xs` and `ys` are the same terms.

    `leafmap` maps leaves of `xs` to leaves of `ys`; shared generators are matched one to one
    (`rngs` collects the bijection); constants by value, operators by equality.
    """
    from aesara.tensor.random.type import RandomType

    def no(a, b):
        if why is not None:
            why.append((a, b))
        return False

    fwd = {} if rngs is None else rngs
    bwd = {v: k for k, v in fwd.items()}
    memo = {}
    stack = list(zip(xs, ys))
    def strip(v):
        # the identity wherever it is defined
        while v.owner is not None and isinstance(v.owner.op, SpecifyShape) and v not in leafmap:
            v = v.owner.inputs[0]
        return v

    while stack:
        a, b = stack.pop()
        a, b = strip(a), strip(b)
        if a in memo:
            if memo[a] is not b:
                # the same node in one graph, two nodes in the other: fine for pure terms,
                # not for generators (draws)
                if (a, b) in memo:
                    continue
            else:
                continue
        memo[a] = b
        memo[(a, b)] = True
        if a in leafmap:
            if leafmap[a] is not b:
                return no(a, b)
            continue
        if a.owner is None or b.owner is None:
            if (a.owner is None) != (b.owner is None):
                return no(a, b)
            if isinstance(a, Constant) or isinstance(b, Constant):
                if not (isinstance(a, Constant) and isinstance(b, Constant) and a.signature() == b.signature()):
                    return no(a, b)
                continue
            if isinstance(a.type, RandomType) and isinstance(b.type, RandomType):
                if fwd.setdefault(a, b) is not b or bwd.setdefault(b, a) is not a:
                    return no(a, b)
                continue
            if a is not b:
                return no(a, b)
            continue
        if a.owner.op != b.owner.op or len(a.owner.inputs) != len(b.owner.inputs):
            return no(a, b)
        if a.owner.outputs.index(a) != b.owner.outputs.index(b):
            return no(a, b)
        stack.extend(zip(a.owner.inputs, b.owner.inputs))
    return True
