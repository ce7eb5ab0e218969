"""C36: what the caller gave to an operation that reads, before and after it."""
from .. import ops
from ..core import Fam

ANCHORS = ["breadth_first_search.py", "depth_first_search.py", "graph_copy.py", "automaton_copy.py", "hopcroft_minimize.py", "moore_determination.py",
           "parallel_breadth_first_search.py", "product_mixin.py", "trie_matching.py", "dijkstra_shortest_paths.py", "graph_view.py", "graph_dp.py", "heap.py"]
RULE = (
    "A case is one operation of a table of about 35 (searches, paths, components, copies, products, minimization, determinization, tries, regular expressions, "
    "exports, heaps...) on random operands: all that the caller gave (graphs, sets, lists, dictionaries behind property maps) is compared before and after it, "
    "and after a run cut short by an exception raised in a callback, which must reach the caller; the answer after that must be the same. "
    "Non-trivial: an operand has at least 2 elements; distinct by operation and operands."
)
REQUIRED = ["operations run", "runs cut short"] + [f"{f.__name__}" for f in ops.JOBS]
ASSUMPTIONS = [
    "operations documented to update their operand (insertion, pruning, Revuz minimization, reversal, Thompson operators on their first operand) are not in the table",
]


def job(ctx, f, k=None):
    j = f(ctx.rng)
    ctx.note(**{f"operation{k or ''}": j.name, f"operands{k or ''}": {n: ops.snap(v) for n, v in j.operands.items()}})
    return j


def one(ctx):
    r = ctx.rng
    f = ops.JOBS[ctx.i % len(ops.JOBS)]
    j = job(ctx, f)
    before = j.snapshot()
    answer = j.run()
    ctx.ev("operations run")
    ctx.ev(f.__name__)
    compare(ctx, j, before, "an operation altered what it was given")
    if j.bomb.calls:
        j.bomb.left = r.randint(1, j.bomb.calls)
        if r.random() < 0.3:
            j.bomb.left = r.choice([1, 2, j.bomb.calls])
            j.bomb.left = min(j.bomb.left, j.bomb.calls)
        ctx.note(cut_short_at=j.bomb.left)
        ctx.raises(ops.Boom, j.run, "an exception raised by a callback did not reach the caller")
        ctx.ev("runs cut short")
        j.bomb.left = None
        compare(ctx, j, before, "an operation cut short altered what it was given")
        ctx.eq(j.run(), answer, "the answer differs after a run cut short")
    if any(len(x) > 2 for x in map(repr, before.values())):
        ctx.nontrivial(j.name, repr(before))
    ctx.sample(operation=j.name)


def compare(ctx, j, before, msg):
    after = j.snapshot()
    for k in before:
        ctx.eq(after[k], before[k], msg, operand=k)


FAMILIES = [Fam("one", one, 200 * len(ops.JOBS), 3000 * len(ops.JOBS))]
