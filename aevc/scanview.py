"""Views of `Scan` loops used by the loop contracts."""
from aesara.scan.utils import ScanArgs
from aesara.tensor.random.op import RandomVariable
from aesara.graph.basic import io_toposort

from . import graph as g
from .core import Refuted
from .terms import Unsupported


class Loop:
    """A Scan node: its body (inner graph) and how its inputs and outputs are wired."""

    def __init__(self, node):
        self.node = node
        self.a = a = ScanArgs.from_node(node)
        if a.as_while or a.outer_in_mit_mot or a.outer_in_mit_sot:
            raise Unsupported("loop with taps other than the previous value")
        self.n_steps = a.n_steps
        # The sequences are cut to the number of steps by the loop's own construction
        self.seqs = list(zip(a.outer_in_seqs, a.inner_in_seqs))
        self.states = list(zip(a.outer_in_sit_sot, a.inner_in_sit_sot, a.inner_out_sit_sot, a.outer_out_sit_sot))
        self.maps = list(zip(a.inner_out_nit_sot, a.outer_out_nit_sot))
        self.shared = list(zip(a.outer_in_shared, a.inner_in_shared, a.inner_out_shared, a.outer_out_shared))
        self.nonseqs = list(zip(a.outer_in_non_seqs, a.inner_in_non_seqs))

    def draws(self):
        outs = [o for _, _, o, _ in self.states] + [o for o, _ in self.maps]
        return [n for n in io_toposort([], outs) if isinstance(n.op, RandomVariable)]

    def check_generators(self):
        """Every draw in the body has its own generator, advanced from one iteration to the next."""
        own = {i: o for _, i, o, _ in self.shared}
        used = set()
        for n in self.draws():
            r = n.inputs[0]
            if r in used:
                raise Refuted("two draws of one iteration use the same generator state", {"draw": str(n.op)}, replayed=False)
            used.add(r)
            if r not in own:
                raise Refuted("a draw in the loop does not use a generator carried by the loop: every iteration repeats it",
                              {"draw": str(n.op)}, replayed=False)
            o = own[r]
            # the same node may occur twice in the body (for the value and for the update)
            same = o.owner is not None and o.owner.op == n.op and o is o.owner.outputs[0] and o.owner.inputs[0] is r
            if not same:
                raise Unsupported("generator update of another form")
        return "structural"


def scan_nodes(outputs, blockers=()):
    return [n for n in io_toposort(list(blockers), list(outputs)) if type(n.op).__name__ == "Scan"]


def flat(outputs):
    return g.flatten(outputs)
