"""C11: union / intersection products judged by exact pair search on the operands."""
from pybgl.automaton import Automaton
from pybgl.deterministic_intersection import DeterministicIntersectionVisitor, deterministic_intersection
from pybgl.deterministic_union import DeterministicUnionVisitor, deterministic_union
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.node_automaton import NodeAutomaton

from .. import gen
from ..core import Fam

ANCHORS = ["deterministic_union.py", "deterministic_intersection.py", "product_mixin.py", "parallel_breadth_first_search.py"]
RULE = (
    "A case is a pair of deterministic automata (edge- or node-labelled, with or without in-edges, possibly sharing symbols or not) whose union and "
    "intersection are built and compared with the operands by a search of all reachable triples of states (exact). Non-trivial: both languages are "
    "non-empty and differ; distinct by pair and operation."
)
REQUIRED = ["union", "intersection", "node operand", "edge operand", "cyclic operand", "disjoint alphabets", "empty operand language", "supplied result", "supplied visitor",
            "epsilon accepted by one", "same object twice", "initial state not 0", "many states or symbols"]
ASSUMPTIONS = ["the initial state is a state of the automaton"]


def diff3(d1, d2, d, op):
    """A shortest word on which d disagrees with op(d1, d2), or None."""
    start = (d1.init, d2.init, d.init)
    seen = {start: None}
    todo = [start]

    def acc(x, q):
        return q is not None and q in x.finals

    for p in todo:
        q1, q2, q = p
        if op(acc(d1, q1), acc(d2, q2)) != acc(d, q):
            w = []
            while seen[p] is not None:
                p, a = seen[p]
                w.append(a)
            return list(reversed(w))
        for a in set(d1.tr.get(q1, ())) | set(d2.tr.get(q2, ())) | set(d.tr.get(q, ())):
            n = (d1.delta(q1, a), d2.delta(q2, a), d.delta(q, a))
            if n not in seen:
                seen[n] = (p, a)
                todo.append(n)
    return None


OPS = {
    "union": (deterministic_union, DeterministicUnionVisitor, lambda a, b: a or b),
    "intersection": (deterministic_intersection, DeterministicIntersectionVisitor, lambda a, b: a and b),
}


def operand(ctx, al):
    r = ctx.rng
    if r.random() < 0.35:
        d, sym = gen.node_dfa(r, n_max=r.choice([1, 3, 5]), alphabet=al)
        g, ids = gen.build_node_dfa(r.choice([NodeAutomaton, IncidenceNodeAutomaton]), d, sym, r)
        ctx.ev("node operand")
    else:
        d = gen.dfa(r, n_max=r.choice([1, 3, 5]), alphabet=al, acyclic=r.random() < 0.3)
        g, ids = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d, r, churn=r.random() < 0.2)
        ctx.ev("edge operand")
    if any(q in gen.closure(None, [(x, y) for x, y, _ in d.edges()], [s]) for q, s, _ in d.edges()):
        ctx.ev("cyclic operand")
    if not d.reachable() & d.finals:
        ctx.ev("empty operand language")
    if ids[d.init] != 0:
        ctx.ev("initial state not 0")
    return d, g


def judge(ctx, op, d1, g1, d2, g2):
    r = ctx.rng
    f, V, fun = OPS[op]
    s1, s2 = gen.snapshot(g1), gen.snapshot(g2)
    out = r.choice([None, None, Automaton, IncidenceAutomaton])
    vis = None
    if out:
        out = gen.emptied(r, out())
        if r.random() < 0.5:
            vis = V(out)
            ctx.ev("supplied visitor")
        g = f(g1, g2, out, vis) if vis or r.random() < 0.5 else f(g1, g2, g12=out)
        ctx.expect(g is out, "the automaton supplied is not the one returned")
        ctx.ev("supplied result")
    else:
        g = f(g1, g2)
    ctx.eq(gen.snapshot(g1), s1, f"{op} altered its first operand")
    ctx.eq(gen.snapshot(g2), s2, f"{op} altered its second operand")
    try:
        D = gen.read_dfa(g)
    except AssertionError as e:
        ctx.fail(f"the {op} is not deterministic: {e}")
    ctx.note(op=op, result=D)
    ctx.expect(D.init is not None, f"the {op} has no initial state")
    w = diff3(d1, d2, D, fun)
    ctx.expect(w is None, f"the {op} does not accept the right words", word=w)
    al = sorted(d1.alphabet() | d2.alphabet(), key=repr)
    for x in gen.words(r, al, 4, 6):
        ctx.eq(bool(g.accepts(x)), bool(fun(d1.accepts(x), d2.accepts(x))), f"accepts() of the {op}", word=x)
    ctx.ev(op)
    e1, e2 = d1.init in d1.finals, d2.init in d2.finals
    if e1 != e2:
        ctx.ev("epsilon accepted by one")
    if vis is not None:
        for q1, q2, q in ((x, y, vis.get_product_vertex(x, y)) for x in [*g1.vertices(), None] for y in [*g2.vertices(), None]):
            if q is not None:
                ctx.eq(bool(g.is_final(q)), bool(fun(bool(g1.is_final(q1)), bool(g2.is_final(q2)))), "final status of a product state", pair=(q1, q2))
    if d1.reachable() & d1.finals and d2.reachable() & d2.finals and gen.difference(d1, d2) is not None:
        ctx.nontrivial(op, repr(d1), repr(d2))
    return g


def rand(ctx):
    r = ctx.rng
    al = r.choice(gen.ALPHABETS)
    al2 = al if r.random() < 0.75 else r.choice(gen.ALPHABETS)
    d1, g1 = operand(ctx, al)
    d2, g2 = operand(ctx, al2)
    if r.random() < 0.05:
        d2, g2 = d1, g1
        ctx.ev("same object twice")
    if not d1.alphabet() & d2.alphabet():
        ctx.ev("disjoint alphabets")
    ctx.note(g1=d1, g2=d2, kinds=(type(g1).__name__, type(g2).__name__))
    for op in OPS:
        judge(ctx, op, d1, g1, d2, g2)
    ctx.sample(g1=d1, g2=d2)


def algebra(ctx):
    """Commutativity, absorption and chaining of the two operations (the result of one feeds the other)."""
    r = ctx.rng
    al = r.choice([["a"], ["a", "b"], [0, 1]])
    d1, g1 = operand(ctx, al)
    d2, g2 = operand(ctx, al)
    d3, g3 = operand(ctx, al)
    ctx.note(g1=d1, g2=d2, g3=d3)
    u = deterministic_union(g1, deterministic_intersection(g2, g3))
    v = deterministic_intersection(deterministic_union(g1, g2), deterministic_union(g1, g3))
    w = gen.difference(gen.read_dfa(u), gen.read_dfa(v))
    ctx.expect(w is None, "union does not distribute over intersection", word=w)
    w = gen.difference(gen.read_dfa(deterministic_union(g1, g2)), gen.read_dfa(deterministic_union(g2, g1)))
    ctx.expect(w is None, "union is not commutative", word=w)
    w = gen.difference(gen.read_dfa(deterministic_intersection(g1, deterministic_union(g1, g2))), d1)
    ctx.expect(w is None, "absorption fails", word=w)
    if d1.reachable() & d1.finals:
        ctx.nontrivial(repr((d1, d2, d3)))


def nth2(i):
    """All partial 2-state automata over {a, b} with initial state 0 and any final set: 3^4 * 4."""
    i, f = divmod(i, 4)
    tr = {}
    for q in range(2):
        for a in "ab":
            i, t = divmod(i, 3)
            if t < 2:
                tr.setdefault(q, {})[a] = t
    return gen.Dfa(2, 0, {q for q in range(2) if f >> q & 1}, tr)


N2 = 81 * 4


def exhaustive(ctx):
    k = ctx.i if ctx.thorough else ctx.i * 53 + ctx.seed % 53
    d1, d2 = nth2(k // N2), nth2(k % N2)
    ctx.note(g1=d1, g2=d2)
    g1, _ = gen.build_dfa(Automaton, d1)
    g2, _ = gen.build_dfa(Automaton, d2)
    for op in OPS:
        judge(ctx, op, d1, g1, d2, g2)


def big(ctx):
    """Many states, wide alphabets, long words told apart at their end."""
    r = ctx.rng
    al = r.choice([["a"], ["a", "b"], [("x", 1), ("y", 2)]])
    kind = r.choice(["chain", "ring", "tree", "wide", "hub"])
    if kind in ("wide", "hub"):
        al = gen.wide_alphabet(r, r.choice([50, 280]))
    d1 = gen.big_dfa(r, kind, al, 0.6)
    x = r.random()
    if x < 0.4:
        d2 = gen.Dfa(d1.n, d1.init, set(d1.finals), {q: dict(t) for q, t in d1.tr.items()})
        for _ in range(r.choice([0, 1, 4])):
            d2.finals ^= {r.choice([d2.n - 1, r.randrange(d2.n)])}
    elif x < 0.7:
        d2 = gen.big_dfa(r, "wide" if kind in ("wide", "hub") else r.choice(["chain", "tree"]), al, 0.6)
    else:
        d2 = gen.dfa(r, 5, al[:3])
    if r.random() < 0.5:
        d1, d2 = d2, d1
    g1, g2 = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d1, r)[0], gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d2, r)[0]
    ctx.note(g1=d1, g2=d2)
    judge(ctx, r.choice(["union", "intersection"]), d1, g1, d2, g2)
    ctx.ev("many states or symbols")


FAMILIES = [
    Fam("big", big, 480, 9600),
    Fam("rand", rand, 16000, 320000),
    Fam("algebra", algebra, 2400, 40000),
    Fam("exhaustive", exhaustive, N2 * N2 // 53, N2 * N2),
]
