"""C37: no call sees another, no object shares the state of another."""
import random
from collections import defaultdict

from pybgl.aggregated_visitor import AggregatedVisitor
from pybgl.automaton import Automaton, make_automaton
from pybgl.bk_tree import BKTree, make_bk_tree
from pybgl.deterministic_inclusion import ContradictionException, DeterministicInclusionVisitor, deterministic_inclusion
from pybgl.deterministic_intersection import DeterministicIntersectionVisitor
from pybgl.deterministic_union import DeterministicUnionVisitor
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_dp import GraphDp
from pybgl.graph_view import GraphView
from pybgl.graphviz import GraphvizOptsParser, ReadGraphvizVisitor
from pybgl.heap import Heap
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.levenshtein_distance import levenshtein_distance
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton, make_node_automaton
from pybgl.property_map import make_func_property_map
from pybgl.singleton import Singleton
from pybgl.shunting_yard_postfix import (
    AlgTokenizeVisitor, Ast, CatifyTokenizeVisitor, MAP_OPERATORS_ALG, RpnDequeAlg, RpnDequeAst, RpnDequeOperation,
)
from pybgl.trie import Trie
from pybgl.trie_matching import TrieMatchingVisitor

from .. import gen, ops
from ..core import Fam

ANCHORS = ["automaton.py", "graph.py", "incidence_automaton.py", "incidence_graph.py", "nfa.py", "node_automaton.py", "trie.py", "heap.py", "bk_tree.py", "graph_dp.py", "singleton.py"]
RULE = (
    "A case is either a sequence of operations of the table of C36 run in turn and repeated, each answer being compared with the first one given; or an operation "
    "that builds an object, the object and the operands being altered in turn, each looked at before and after the other is; or two or three objects of one of "
    "33 classes, updated alternately, a new one being compared with the first new one at every step; or an operation run before and after updates of its operands, "
    "against operands of the same history never read before; or sets answered by an object, altered by the caller; or singleton classes asked for their object in any order. Non-trivial: at least two updates or runs; distinct by case."
)
REQUIRED = ["answers altered", "followed", "followed with an answer", "arguments shared", "runs repeated", "results altered", "operands altered", "objects interleaved", "new objects compared", "singletons asked"]
ASSUMPTIONS = ["GraphvizStyle is shared on purpose", "a view shares its graph on purpose", "operands are not altered while an operation runs"]


def repeat(ctx):
    r = ctx.rng
    f = ops.JOBS[ctx.i % len(ops.JOBS)]
    jobs = [f(r), f(r)] + [r.choice(ops.JOBS)(r) for _ in range(r.randint(0, 2))]
    for k, j in enumerate(jobs):
        ctx.note(**{f"operation{k}": j.name, f"operands{k}": j.snapshot()})
    first = {}
    order = []
    for _ in range(r.randint(4, 8)):
        k = r.randrange(len(jobs))
        order.append(k)
    order = [0, 1, 0] + order
    ctx.note(order=order)
    for k in order:
        a = jobs[k].run()
        if k not in first:
            first[k] = a
        else:
            ctx.eq(a, first[k], "the same operation on the same operands gives another answer", operation=jobs[k].name)
            ctx.ev("runs repeated")
    ctx.nontrivial(f.__name__, repr(jobs[0].snapshot()), repr(order))


MAKERS = []
for _f in ops.JOBS:
    import random as _random
    if any(_f(_random.Random(i)).make for i in range(3)):
        MAKERS.append(_f)


def results(ctx):
    """Objects built from operands live on their own."""
    r = ctx.rng
    j = MAKERS[ctx.i % len(MAKERS)](r)
    ctx.note(operation=j.name, operands=j.snapshot())
    before = j.snapshot()
    answer = j.run()
    a = j.make()
    c = j.make()
    sa, sc = ops.snap(a), ops.snap(c)
    log = []
    ctx.note(updates=log, result=sa)
    for _ in range(r.randint(1, 3)):
        u = ops.alter(a, r)
        if u:
            log.append(("result", u))
            ctx.ev("results altered")
            ctx.eq(ops.snap(c), sc, "altering a result alters another one")
            ctx.eq(j.snapshot(), before, "altering a result alters the operands")
            ctx.eq(j.run(), answer, "altering a result changes later answers")
    for k, x in sorted(j.operands.items()):
        u = ops.alter(x, r)
        if u is None and isinstance(x, dict) and x and not isinstance(x, defaultdict):
            x.pop(next(iter(x)))
            u = ["pop"]
        elif u is None and isinstance(x, list):
            x.append(x[0] if x else 0)
            u = ["append"]
        if u:
            log.append((k, u))
            ctx.ev("operands altered")
            ctx.eq(ops.snap(c), sc, "altering an operand alters the result built before", operand=k)
    if log:
        ctx.nontrivial(j.name, repr(log), repr(before))


class Dp:
    """A GraphDp and its own graph."""

    def __init__(self):
        self.g = DirectedGraph(2)
        self.dp = GraphDp(self.g)


def _dp(x, r):
    d = r.choice([x.dp.dpv, x.dp.dpe, x.dp.dg, x.dp.dv, x.dp.de])
    d[r.choice(["color", "k"])] = r.choice([None, "red"])
    if r.random() < 0.3:
        x.dp.extra_style.append("splines=1")
    return ["dp"]


def _visitors(x, r):
    x.counters[r.randrange(4)] += 1
    return ["counters"]


def _agg(x, r):
    x.visitors.append(TrieMatchingVisitor())
    return ["visitor"]


def _ast(x, r):
    u = x.add_vertex(r.choice(["a", "b"]))
    if u:
        x.add_edge(0, u)
    x.root = r.choice([None, 0, u])
    return ["ast"]


def _rpn(x, r):
    a = r.choice([1, 2, "u-", "+"])
    if isinstance(a, int) or len(x) >= x.map_operators[a].cardinality:
        x.append(a)
    else:
        x.append(3)
    return ["rpn"]


def _tokens(x, r):
    if r.random() < 0.6:
        x.on_unmatched("7", 0, 1, "7")
    else:
        x.on_matched(r.choice("+("), 0, 1, "+")
    return ["tokens"]


def _aliases(x, r):
    x.on_vertex("0;", r.choice(["0", "5"]), DirectedGraph(r.randint(0, 3)), r.choice(["", "[a=b]"]))
    return ["aliases"]


def _opts(x, r):
    x.feed(r.choice(["[a=b]", '[label="x y"; c=d]']))
    return ["opts"]


def _inclusion(x, r):
    g = Automaton(1)
    h = Automaton(1)
    r.choice([g, h]).set_final(0)
    try:
        deterministic_inclusion(g, h, x)
    except ContradictionException:
        pass
    return ["inclusion"]


class Product:
    """A product being built and its automaton."""

    def __init__(self, C):
        self.g12 = Automaton()
        self.vis = C(self.g12)


def _product(x, r):
    g, h = Automaton(2), Automaton(2)
    g.add_edge(0, 1, "a")
    h.add_edge(0, 1, "a")
    x.vis.get_or_create_product_vertex(r.randrange(2), g, r.randrange(2), h)
    return ["product"]


def _snap(x):
    if isinstance(x, Dp):
        return ops.snap(x.dp)
    if isinstance(x, TrieMatchingVisitor):
        return list(x.counters)
    if isinstance(x, RpnDequeAst):
        return list(x), _snap(x.ast)
    if isinstance(x, RpnDequeOperation):
        return list(x), sorted(x.map_operators)
    if isinstance(x, AggregatedVisitor):
        return [type(v).__name__ for v in x.visitors], sorted(x.keys())
    if isinstance(x, (AlgTokenizeVisitor, CatifyTokenizeVisitor)):
        return list(x.expression)
    if isinstance(x, ReadGraphvizVisitor):
        return dict(x.aliases)
    if isinstance(x, GraphvizOptsParser):
        return dict(x.items())
    if isinstance(x, DeterministicInclusionVisitor):
        return x.ret
    if isinstance(x, Product):
        return ops.snap(x.g12), [(q1, q2, x.vis.get_product_vertex(q1, q2)) for q1 in range(2) for q2 in range(2)]
    if isinstance(x, Ast):
        return x.root, ops.snap(x), [repr(x.symbol(u)) for u in x.vertices()]
    return ops.snap(x)


CLASSES = {
    "DirectedGraph": (DirectedGraph, ops.alter),
    "DirectedGraph(3)": (lambda: DirectedGraph(3), ops.alter),
    "UndirectedGraph": (UndirectedGraph, ops.alter),
    "UndirectedGraph(3)": (lambda: UndirectedGraph(3), ops.alter),
    "IncidenceGraph": (IncidenceGraph, ops.alter),
    "IncidenceGraph(3)": (lambda: IncidenceGraph(3), ops.alter),
    "Automaton": (Automaton, ops.alter),
    "Automaton(3)": (lambda: Automaton(3), ops.alter),
    "IncidenceAutomaton": (IncidenceAutomaton, ops.alter),
    "IncidenceAutomaton(3)": (lambda: IncidenceAutomaton(3), ops.alter),
    "NodeAutomaton": (NodeAutomaton, ops.alter),
    "IncidenceNodeAutomaton": (IncidenceNodeAutomaton, ops.alter),
    "Nfa": (Nfa, ops.alter),
    "Nfa(3)": (lambda: Nfa(3), ops.alter),
    "Trie": (Trie, ops.alter),
    "BKTree": (lambda: BKTree(levenshtein_distance), ops.alter),
    "Heap": (Heap, ops.alter),
    "Heap([])": (lambda: Heap([]), ops.alter),
    "GraphDp": (Dp, _dp),
    "TrieMatchingVisitor": (TrieMatchingVisitor, _visitors),
    "AggregatedVisitor": (AggregatedVisitor, _agg),
    "AggregatedVisitor([])": (lambda: AggregatedVisitor([]), _agg),
    "Ast": (Ast, _ast),
    "RpnDequeAst": (lambda: RpnDequeAst(map_operators=MAP_OPERATORS_ALG), _rpn),
    "RpnDequeAlg": (RpnDequeAlg, _rpn),
    "RpnDequeOperation": (lambda: RpnDequeOperation(MAP_OPERATORS_ALG), _rpn),
    "AlgTokenizeVisitor": (AlgTokenizeVisitor, _tokens),
    "CatifyTokenizeVisitor": (CatifyTokenizeVisitor, _tokens),
    "ReadGraphvizVisitor": (ReadGraphvizVisitor, _aliases),
    "GraphvizOptsParser": (GraphvizOptsParser, _opts),
    "DeterministicInclusionVisitor": (DeterministicInclusionVisitor, _inclusion),
    "DeterministicUnionVisitor": (lambda: Product(DeterministicUnionVisitor), _product),
    "DeterministicIntersectionVisitor": (lambda: Product(DeterministicIntersectionVisitor), _product),
}


def objects(ctx):
    r = ctx.rng
    name = list(CLASSES)[ctx.i % len(CLASSES)]
    C, alter = CLASSES[name]
    objs = [C() for _ in range(r.choice([2, 3]))]
    new = _snap(objs[0])
    for x in objs:
        ctx.eq(_snap(x), new, "two new objects differ", cls=name)
    log = []
    ctx.note(cls=name, updates=log, new=new)
    for _ in range(r.randint(3, 10)):
        k = r.randrange(len(objs))
        others = [(i, _snap(x)) for i, x in enumerate(objs) if i != k]
        u = alter(objs[k], r)
        log.append((k, u))
        for i, s in others:
            ctx.eq(_snap(objs[i]), s, "an update of an object alters another one", other=i)
        ctx.ev("objects interleaved")
        y = C()
        ctx.eq(_snap(y), new, "a new object is not like the first one")
        ctx.ev("new objects compared")
        if r.random() < 0.15:
            objs[r.randrange(len(objs))] = y
    ctx.nontrivial(name, repr(log))


SHARED = {
    "Nfa(n, set)": (lambda r: set(r.sample(range(4), r.randint(1, 3))), lambda a: Nfa(4, a), ops.alter),
    "Nfa(initials=set)": (lambda r: {r.randrange(4)}, lambda a: Nfa(4, initials=a), ops.alter),
    "Nfa.set_initials": (lambda r: set(r.sample(range(4), r.randint(0, 3))), lambda a: _then(Nfa(4), "set_initials", a), ops.alter),
    "Heap(list)": (lambda r: [r.randint(0, 5) for _ in range(r.randint(1, 4))], Heap, ops.alter),
    "make_bk_tree(list)": (lambda r: [r.choice(["a", "ab", "", "ba"]) for _ in range(r.randint(1, 4))], make_bk_tree, ops.alter),
    "Trie.insert(trie)": (lambda r: _then(Trie(), "insert", r.choice(["a", "ab"])), lambda a: _then(Trie(), "insert", a), ops.alter),
    "make_automaton(list)": (lambda r: [(0, 1, "a"), (1, 0, r.choice("ab"))], make_automaton, ops.alter),
    "make_node_automaton(list)": (lambda r: [(0, 1), (1, 2)], lambda a: make_node_automaton(a, make_func_property_map(lambda q: "ab"[q % 2])), ops.alter),
}


def _then(x, f, a):
    getattr(x, f)(a)
    return x


def _arg(a):
    return sorted(a) if isinstance(a, set) else list(a) if isinstance(a, list) else ops.snap(a)


def shared(ctx):
    """Two objects built from the same argument."""
    r = ctx.rng
    name = list(SHARED)[ctx.i % len(SHARED)]
    arg, C, alter = SHARED[name]
    a = arg(r)
    given = _arg(a)
    objs = [C(a), C(a)]
    new = _snap(objs[0])
    log = []
    ctx.note(cls=name, argument=given, updates=log, new=new)
    ctx.eq(_snap(objs[1]), new, "two objects built from the same argument differ")
    for _ in range(r.randint(2, 6)):
        k = r.randrange(2)
        s = _snap(objs[1 - k])
        log.append((k, alter(objs[k], r)))
        ctx.eq(_snap(objs[1 - k]), s, "an update of an object alters another one built from the same argument")
        ctx.eq(_arg(a), given, "an update of an object alters the argument it was built from")
        ctx.eq(_snap(C(a)), new, "an object built later from the same argument is not like the first one")
        ctx.ev("arguments shared")
    s = [_snap(x) for x in objs]
    if isinstance(a, set):
        a.symmetric_difference_update({r.randrange(4)})
    elif isinstance(a, list):
        a.append(a[0])
    else:
        alter(a, r)
    ctx.eq([_snap(x) for x in objs], s, "altering the argument alters the objects built from it")
    ctx.nontrivial(name, repr(given), repr(log))


def follow(ctx):
    """The answer follows the operands: it is the one given by operands of the same history which no operation has read."""
    r = ctx.rng
    f = ops.JOBS[ctx.i % len(ops.JOBS)]
    s = r.getrandbits(40)
    j, twin = f(random.Random(s)), f(random.Random(s))
    before = j.snapshot()
    if twin.snapshot() != before:
        ctx.fail("two sets of operands built in the same way differ")
    for _ in range(r.choice([1, 1, 2])):
        a = j.run()
    if j.make and r.random() < 0.5:
        j.make()
    log = []
    ctx.note(operation=j.name, operands=before, updates=log, first=a)
    for k in sorted(j.operands):
        if k in ("operators", "shared", "initials") or r.random() < 0.2:
            continue
        t = r.getrandbits(40)
        u = ops.grow(j.operands[k], random.Random(t))
        if u:
            log.append((k, u))
            ops.grow(twin.operands[k], random.Random(t))
    t = r.getrandbits(40)
    ops.complete(j.operands, random.Random(t))
    ops.complete(twin.operands, random.Random(t))
    after = j.snapshot()
    ctx.eq(after, twin.snapshot(), "the same updates of equal operands give different ones")
    got, want = outcome(j), outcome(twin)
    ctx.eq(got, want, "the answer is not the one of fresh operands in the same state")
    if log and after != before:
        ctx.ev("followed")
        ctx.ev("followed with an answer", want[0] == "answer" and want[1] != a)
        ctx.nontrivial(j.name, repr(log), repr(before))


def outcome(j):
    try:
        return "answer", j.run()
    except Exception as e:
        return "raised", type(e).__name__


def answers(ctx):
    """A set or a list answered belongs to the caller, who may alter it."""
    r = ctx.rng
    names = [n for n in CLASSES if n not in ("GraphDp", "GraphvizOptsParser") and "Visitor" not in n and "Rpn" not in n and n != "Ast" and not n.startswith("Heap")]
    name = names[ctx.i % len(names)]
    x = CLASSES[name][0]()
    log = []
    for _ in range(r.randint(2, 8)):
        log.append(ops.alter(x, r))
    vs = sorted(x.vertices())
    al = sorted(x.alphabet(), key=repr) if hasattr(x, "alphabet") else []
    asks = [(n, ()) for n in ("vertices", "edges", "alphabet", "finals") if hasattr(x, n)]
    for u in vs[:3]:
        asks += [(n, (u,)) for n in ("out_edges", "sigma") if hasattr(x, n)]
        asks += [("delta", (u, a)) for a in al if hasattr(x, "delta")]
        asks += [("delta_epsilon", ({u},))] if isinstance(x, Nfa) else []
    asks += [("delta_word", (w,)) for w in ([], al[:2])] if isinstance(x, Nfa) else []
    r.shuffle(asks)
    ctx.note(cls=name, updates=log)
    s = _snap(x)
    for n, args in asks:
        y = getattr(x, n)(*args)
        if isinstance(y, (set, list, dict)) and n != "initials":
            before = ops.snap(y)
            y.pop() if y and r.random() < 0.5 else y.clear()
            if isinstance(y, set) and r.random() < 0.5:
                y.add("other")
            ctx.eq(_snap(x), s, "altering an answer alters the object asked", question=n, args=args)
            ctx.eq(ops.snap(getattr(x, n)(*args)), before, "altering an answer alters the next one", question=n, args=args)
            ctx.ev("answers altered")
            ctx.nontrivial(name, repr(log), n)


def singletons(ctx):
    """A class declared as a singleton has one object, made once; each class has its own."""
    r = ctx.rng
    made = []

    def declare(k):
        class C(metaclass=Singleton):
            def __init__(self, *args, **kwargs):
                made.append(k)
                self.args, self.kwargs, self.items = args, kwargs, []
        return C

    n = r.choice([1, 2, 5, 14, 40])
    classes = [declare(k) for k in range(n)]
    if r.random() < 0.3:
        k = r.randrange(n)
        classes.append(type(classes[k])("D", (classes[k],), {}))
    first, given = {}, {}
    for _ in range(3 * n):
        k = r.randrange(len(classes))
        args = tuple(r.randrange(5) for _ in range(r.randint(0, 2)))
        kw = {"x": r.randrange(5)} if r.random() < 0.3 else {}
        x = classes[k](*args, **kw)
        ctx.expect(type(x) is classes[k], "the object is one of another class", index=k)
        if k in first:
            ctx.expect(x is first[k], "a singleton has a second object", index=k)
        else:
            ctx.expect(all(x is not y for y in first.values()), "two classes share an object", index=k)
            first[k], given[k] = x, (args, kw)
        x.items.append(len(x.items))
        ctx.ev("singletons asked")
    ctx.eq(len(made), len(first), "objects made")
    for k, x in first.items():
        ctx.eq((x.args, x.kwargs), given[k], "arguments a singleton was made with", index=k)
        ctx.eq(x.items, list(range(len(x.items))), "content of a singleton", index=k)
    if n > 1:
        ctx.nontrivial(n, len(first), ctx.i)


FAMILIES = [
    Fam("singletons", singletons, 400, 4000),
    Fam("answers", answers, 6000, 96000),
    Fam("follow", follow, 240 * len(ops.JOBS), 3600 * len(ops.JOBS), cpu_s=10),
    Fam("shared", shared, 400 * len(SHARED), 4000 * len(SHARED)),
    Fam("repeat", repeat, 80 * len(ops.JOBS), 1200 * len(ops.JOBS)),
    Fam("results", results, 600 * len(MAKERS), 10000 * len(MAKERS)),
    Fam("objects", objects, 480 * len(CLASSES), 6000 * len(CLASSES)),
]
