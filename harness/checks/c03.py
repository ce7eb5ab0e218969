"""C03: lock-step of the deterministic automaton classes with a transition-map model; constructors."""
from collections import defaultdict

from pybgl.automaton import Automaton, make_automaton
from pybgl.incidence_automaton import IncidenceAutomaton, make_incidence_automaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton, make_incidence_node_automaton
from pybgl.node_automaton import NodeAutomaton, make_node_automaton
from pybgl.property_map import make_assoc_property_map, make_func_property_map

from .. import gen
from ..astore import CLASSES, Store, grown
from ..core import Fam
from ..iso import isomorphism

ANCHORS = ["automaton.py", "node_automaton.py", "incidence_automaton.py", "incidence_node_automaton.py"]
RULE = (
    "A case is either a history of updates on one of the four deterministic automaton classes, every query compared with a transition-map model after every "
    "operation, or a list of transitions given to a constructor, the automaton being compared up to isomorphism. "
    "Non-trivial: a conflicting addition or a removal happened (history) / at least two transitions (constructors); distinct by operation sequence."
)
REQUIRED = ["conflicting additions", "conflicts with a transition to state 0", "op remove_edge", "op remove_vertex", "op clear",
            "op set_initial", "op set_final", "constructed automata", "constructed node automata", "large automata", "large node automata"]
ASSUMPTIONS = ["operations are applied to states present; the initial state is not queried between its removal and the next set_initial"]


def history(ctx):
    r = ctx.rng
    C = CLASSES[ctx.i % 4]
    s = Store(ctx, C, r.choice(gen.ALPHABETS), r.choice([1, 2, 3, 5]))
    ctx.note(cls=C.__name__, ops=s.ops, alphabet=s.alphabet)
    for _ in range(r.choice([12, 30, 60])):
        s.step(r)
        s.check()
    if s.conflicts or s.removed:
        ctx.nontrivial(C.__name__, repr(s.ops))
    ctx.sample(cls=C.__name__, ops=s.ops)


def names(r, n):
    k = r.randrange(4)
    if k == 0:
        return list(range(n))
    if k == 1:
        return r.sample(range(-50, 500), n)
    if k == 2:
        return r.sample(["root", "sink", "a", "b", "é", "", "q 0", "Z"], min(n, 8))
    return [(x, r.randrange(3)) for x in range(n)]


def constructor(ctx):
    r = ctx.rng
    ns = names(r, r.randint(1, 6))
    alphabet = r.choice(gen.ALPHABETS)
    trs = [(r.choice(ns), r.choice(ns), r.choice(alphabet)) for _ in range(r.randint(0, 10))]
    used = []
    for q, s, _ in trs:
        for x in (q, s):
            if x not in used:
                used.append(x)
    q0 = r.choice(used) if used else 0
    fin = {x for x in used if r.random() < 0.4}
    which = ctx.i % 3
    give_final = r.random() < 0.85
    if not give_final:
        fin = set()
    if r.random() < 0.5:
        pm = make_assoc_property_map(defaultdict(bool, {x: True for x in fin}))
    else:
        pm = make_func_property_map(lambda x: x in fin)
    pm = pm if give_final else None
    ctx.note(transitions=trs, q0=q0, finals=fin, which=which)
    kw = {"q0n": q0} if (used or r.random() < 0.5) else {}
    if which == 0:
        g = make_automaton(list(trs), pmap_vfinal=pm, **kw)
        ctx.expect(type(g) is Automaton, "class built")
    elif which == 1:
        g = make_incidence_automaton(list(trs), pmap_vfinal=pm, **kw)
        ctx.expect(type(g) is IncidenceAutomaton, "class built")
    else:
        g = make_automaton(list(trs), pmap_vfinal=pm, Constructor=IncidenceAutomaton, **kw)
        ctx.expect(type(g) is IncidenceAutomaton, "class built")
    tr = {}
    for q, s, a in trs:
        tr.setdefault((q, a), s)
    want = [(q, s, a) for (q, a), s in tr.items()]
    got = [(g.source(e), g.target(e), g.label(e)) for e in g.edges()]
    vs = list(g.vertices())
    c2 = {v: (bool(g.is_final(v)), g.initial() == v) for v in vs}
    c1 = {x: (x in fin, x == q0) for x in used}
    f = isomorphism(used, want, vs, got, c1, c2)
    ctx.expect(f is not None, "the automaton built is not the one described (states, transitions, initial, finals)",
               got=got, vs=vs, colours=c2)
    if which:
        inn = sorted(((g.source(e), g.target(e), g.label(e)) for v in vs for e in g.in_edges(v)), key=repr)
        ctx.eq(inn, sorted(got, key=repr), "in-edges of the automaton built")
    ctx.ev("constructed automata")
    if len(want) >= 2:
        ctx.nontrivial(repr(trs), repr(q0), repr(sorted(fin, key=repr)))
    ctx.sample(transitions=trs, q0=q0, finals=fin)


def node_constructor(ctx):
    r = ctx.rng
    ns = names(r, r.randint(1, 6))
    alphabet = r.choice(gen.ALPHABETS)
    sym = {x: r.choice(alphabet) for x in ns}
    trs = [(r.choice(ns), r.choice(ns)) for _ in range(r.randint(0, 10))]
    used = []
    for t in trs:
        for x in t:
            if x not in used:
                used.append(x)
    q0 = r.choice(used) if used else 0
    fin = {x for x in used if r.random() < 0.4}
    with_final = r.random() < 0.85
    fin = fin if with_final else set()
    with_label = r.random() < 0.9
    if not with_label:
        sym = {x: None for x in ns}
    pmf = (make_assoc_property_map(defaultdict(bool, {x: True for x in fin})) if r.random() < 0.5
           else make_func_property_map(lambda x: x in fin)) if with_final else None
    pml = (make_assoc_property_map(defaultdict(str, sym)) if r.random() < 0.5 else make_func_property_map(lambda x: sym[x])) if with_label else None
    kw = {}
    if used or r.random() < 0.5:
        kw["q0n"] = q0
    ctx.note(transitions=trs, q0=q0, finals=fin, symbols=sym)
    inc = ctx.i % 2
    g = (make_incidence_node_automaton if inc else make_node_automaton)(list(trs), pmap_vlabel=pml, pmap_vfinal=pmf, **kw)
    ctx.expect(type(g) is (IncidenceNodeAutomaton if inc else NodeAutomaton), "class built")
    tr = {}
    for q, s in trs:
        tr.setdefault((q, sym[s]), s)
    want = [(q, s, a) for (q, a), s in tr.items()]
    got = [(g.source(e), g.target(e), g.label(e)) for e in g.edges()]
    vs = list(g.vertices())
    c2 = {v: (bool(g.is_final(v)), g.initial() == v, g.symbol(v)) for v in vs}
    c1 = {x: (x in fin, x == q0, sym[x]) for x in used}
    f = isomorphism(used, want, vs, got, c1, c2)
    ctx.expect(f is not None, "the node automaton built is not the one described (states, symbols, transitions, initial, finals)",
               got=got, vs=vs, colours=c2)
    ctx.ev("constructed node automata")
    if len(want) >= 2:
        ctx.nontrivial(repr(trs), repr(q0), repr(sorted(fin, key=repr)), repr(sym))
    ctx.sample(transitions=trs, q0=q0, finals=fin, symbols=sym)


def direct(ctx):
    """Class constructors with a number of states, an initial state and property maps."""
    r = ctx.rng
    C = CLASSES[ctx.i % 4]
    n = r.randint(0, 5)
    q0 = r.randrange(n) if n else 0
    fin = {q for q in range(n) if r.random() < 0.5}
    sym = {q: r.choice("abc") for q in range(n)}
    pm = make_assoc_property_map(defaultdict(bool, {q: True for q in fin}))
    kw = dict(num_vertices=n, q0=q0, pmap_vfinal=pm)
    node = issubclass(C, NodeAutomaton)
    if node:
        kw["pmap_vsymbol"] = make_assoc_property_map(defaultdict(lambda: None, sym))
    ctx.note(cls=C.__name__, kw=kw, fin=fin, sym=sym)
    g = C(**kw) if r.random() < 0.7 or node else C(n, q0, pm)
    ctx.eq(sorted(g.vertices()), list(range(n)), "states of a new automaton")
    ctx.eq(g.initial(), q0, "initial state of a new automaton")
    ctx.eq(set(g.finals()), fin, "final states of a new automaton")
    ctx.eq(list(g.edges()), [], "a new automaton has no transition")
    if node:
        ctx.eq({q: g.symbol(q) for q in g.vertices()}, sym, "symbols of a new automaton")
        for q in range(n):
            for s in range(n):
                before = g.delta(q, sym[s])
                e, ok = g.add_edge(q, s)
                ctx.eq(bool(ok), before is None, "add_edge on a new automaton")
    ctx.ev("direct constructions")
    if n > 1:
        ctx.nontrivial(C.__name__, n, q0, repr(sorted(fin)), repr(sym))


def big(ctx):
    """Many states, or a state with many transitions."""
    r = ctx.rng
    s = grown(ctx, CLASSES[ctx.i % 4])
    s.shrink(r)
    s.check(full=False)
    for _ in range(40):
        q, t = r.choice(s.vs), r.choice(s.vs)
        es = s.edges()
        if es and r.random() < 0.6:
            q, t, a = r.choice(es)
        if s.node:
            ctx.eq(bool(s.g.edge(gen.fresh(q), gen.fresh(t))[1]), t in s.tr[q].values(), "edge(q, r)", q=q, r=t)
        else:
            a = gen.fresh(r.choice(list(s.tr[q]) or s.alphabet))
            ctx.eq(bool(s.g.edge(gen.fresh(q), gen.fresh(t), a)[1]), s.tr[q].get(a) == t, "edge(q, r, a)", q=q, r=t, a=a)
    ctx.ev("large automata")
    ctx.nontrivial(len(s.vs), len(s.edges()), ctx.i)


def big_constructor(ctx):
    """Long lists of transitions given to a constructor."""
    r = ctx.rng
    n = r.choice([30, 120, 300])
    al = r.choice([["a", "b"], [f"s{k}" for k in range(50)], [1000, 2000]])
    shape = r.choice(["chain", "random", "hub"])
    trs = ([(k, k + 1, r.choice(al)) for k in range(n - 1)] if shape == "chain" else [(0, k + 1, a) for k, a in enumerate(al)] if shape == "hub"
           else [(r.randrange(n), r.randrange(n), r.choice(al)) for _ in range(2 * n)])
    back = r.sample(range(10 ** 4), n + 60)
    trs = [(back[u], back[v], gen.fresh(a)) for u, v, a in trs]
    fin = {x for t in trs for x in t[:2] if r.random() < 0.3}
    q0 = trs[0][0] if r.random() < 0.5 else r.choice(trs)[1]
    ctx.note(transitions=trs, q0=q0, finals=fin)
    g = r.choice([make_automaton, make_incidence_automaton])(list(trs), gen.fresh(q0), make_func_property_map(lambda x: x in fin))
    tr = {}
    for q, s, a in trs:
        tr.setdefault(q, {}).setdefault(a, s)
    used = {x for t in trs for x in t[:2]}
    ctx.eq((g.num_vertices(), g.num_edges()), (len(used), sum(map(len, tr.values()))), "size of the automaton built")
    ctx.eq(sum(1 for q in g.vertices() if g.is_final(q)), len(fin), "number of final states")
    D = gen.read_dfa(g)
    seen, todo = {q0: D.init}, [q0]
    while todo:
        q = todo.pop()
        ctx.eq(D.tr.get(seen[q], {}).keys(), tr.get(q, {}).keys(), "symbols of a state of the automaton built", state=q)
        ctx.eq(seen[q] in D.finals, q in fin, "final state of the automaton built", state=q)
        for a, s in tr.get(q, {}).items():
            t = D.tr[seen[q]][a]
            if s not in seen:
                seen[s] = t
                todo.append(s)
            ctx.eq(t, seen[s], "target of a transition of the automaton built", source=q, symbol=a)
    ctx.eq(len(set(seen.values())), len(seen), "states merged")
    ctx.ev("large automata")
    ctx.nontrivial(repr(trs))


def big_node_constructor(ctx):
    """Many states with a symbol each, given to a constructor."""
    r = ctx.rng
    n = r.choice([30, 120, 300])
    kind = r.choice(["own", "few"])
    sym = {k: (f"s{k}" if kind == "own" else r.choice("abc")) for k in range(n)}
    shape = r.choice(["chain", "ring", "random", "hub", "into one"])
    trs = ([(k, k + 1) for k in range(n - 1)] if shape == "chain" else [(k, (k + 1) % n) for k in range(n)] if shape == "ring" else [(0, k) for k in range(1, n)] if shape == "hub"
           else [(k, 0) for k in range(1, n)] if shape == "into one" else [(r.randrange(n), r.randrange(n)) for _ in range(2 * n)])
    if r.random() < 0.5:
        r.shuffle(trs)
    back = r.sample(range(10 ** 4), n)
    trs = [(back[u], back[v]) for u, v in trs]
    sym = {back[k]: a for k, a in sym.items()}
    used = {x for t in trs for x in t}
    fin = {x for x in used if r.random() < 0.3}
    q0 = trs[0][0] if r.random() < 0.5 else r.choice(trs)[1]
    ctx.note(transitions=trs, q0=q0, finals=fin, symbols=sym)
    g = r.choice([make_node_automaton, make_incidence_node_automaton])(list(trs), pmap_vlabel=make_func_property_map(lambda x: sym[x]), pmap_vfinal=make_func_property_map(lambda x: x in fin), q0n=gen.fresh(q0))
    tr = {}
    for q, s in trs:
        tr.setdefault(q, {}).setdefault(sym[s], s)
    ctx.eq((g.num_vertices(), g.num_edges()), (len(used), sum(map(len, tr.values()))), "size of the automaton built")
    ctx.eq(sum(1 for q in g.vertices() if g.is_final(q)), len(fin), "number of final states")
    entered = {sym[s] for t in tr.values() for s in t.values()}
    ctx.eq(set(g.alphabet()), {sym[x] for x in used if x != q0} | entered, "alphabet()")
    ctx.eq(sorted((repr(g.symbol(v)), bool(g.is_final(v)), g.out_degree(v)) for v in g.vertices()), sorted((repr(sym[x]), x in fin, len(tr.get(x, ()))) for x in used), "states of the automaton built")
    D = gen.read_dfa(g)
    ctx.eq(g.symbol(D.init), sym[q0], "symbol of the initial state")
    seen, todo = {q0: D.init}, [q0]
    while todo:
        q = todo.pop()
        ctx.eq(D.tr.get(seen[q], {}).keys(), tr.get(q, {}).keys(), "symbols of a state of the automaton built", state=q)
        ctx.eq((seen[q] in D.finals, g.symbol(seen[q])), (q in fin, sym[q]), "final state and symbol of the automaton built", state=q)
        for a, s in tr.get(q, {}).items():
            t = D.tr[seen[q]][a]
            if s not in seen:
                seen[s] = t
                todo.append(s)
            ctx.eq(t, seen[s], "target of a transition of the automaton built", source=q, symbol=a)
    ctx.eq(len(set(seen.values())), len(seen), "states merged")
    ctx.ev("large node automata")
    ctx.nontrivial(repr(trs))


FAMILIES = [
    Fam("big", big, 480, 9600),
    Fam("big_node_constructor", big_node_constructor, 400, 8000),
    Fam("big_constructor", big_constructor, 800, 16000),
    Fam("direct", direct, 400, 2000),
    Fam("constructor", constructor, 12000, 160000),
    Fam("node_constructor", node_constructor, 12000, 160000),
    Fam("history", history, 10000, 240000),
]
