"""C40: algorithms chained on each other's results, in lock-step with the language."""
from collections import defaultdict

from pybgl.automaton import Automaton, automaton_insert_string
from pybgl.automaton_copy import automaton_copy
from pybgl.deterministic_inclusion import deterministic_inclusion
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.digital_sequence import DigitalSequence
from pybgl.graph_view import GraphView
from pybgl.hopcroft_minimize import hopcroft_minimize
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.moore_determination import moore_determination
from pybgl.nfa import Nfa
from pybgl.property_map import make_assoc_property_map
from pybgl.prune_incidence_automaton import prune_incidence_automaton
from pybgl.regexp import compile_dfa, compile_nfa
from pybgl.revuz_minimize import revuz_minimize
from pybgl.shunting_yard_postfix import re_escape
from pybgl.suffix_trie import factors, make_suffix_trie
from pybgl.trie import Trie
from pybgl.trie_matching import trie_matching

from .. import gen, nfaref
from ..core import Fam
from . import c07
from .c12 import only

ANCHORS = ["deterministic_union.py", "deterministic_intersection.py", "hopcroft_minimize.py", "revuz_minimize.py", "moore_determination.py", "prune_incidence_automaton.py",
           "automaton_copy.py", "thompson_compile_nfa.py", "trie.py", "deterministic_inclusion.py", "parallel_breadth_first_search.py", "nfa.py"]
RULE = (
    "A case starts from an automaton (random, compiled expression, trie, suffix trie, NFA) and applies 2 to 7 algorithms in a row, each to what the previous one returned "
    "(determinize, Hopcroft, Revuz, prune, copy, union, intersection, reversal through an NFA, insertion of words); after each step the language is compared exactly with a "
    "reference automaton on which the same operation was computed independently. Or it checks an algebraic law of languages on random operands. "
    "Non-trivial: at least 2 steps, language neither empty nor reduced to the empty word; distinct by steps and start."
)
STEPS = ["determinize", "hopcroft", "revuz", "prune", "copy", "union", "intersection", "reverse", "to nfa", "insert", "trie merge", "same object"]
STARTS = ["random", "expression", "trie", "suffix trie", "nfa"]
LAWS = ["distributivity", "absorption", "inclusion laws", "double reversal", "brzozowski", "sequence as expression", "matching is intersection", "words rebuilt"]
REQUIRED = ["step " + s for s in STEPS] + ["start " + s for s in STARTS] + ["law " + s for s in LAWS]
ASSUMPTIONS = ["a chain stops when the language becomes empty (pruning then leaves no initial state)"]


# ------------------------------------------------------------ the reference: small trimmed automata
def subset(inits, finals, tr):
    """Determinizes a set of transitions (q, r, a)."""
    start = frozenset(inits)
    ids, todo, out = {start: 0}, [start], {}
    by = {}
    for q, s, a in tr:
        by.setdefault(q, []).append((a, s))
    for S in todo:
        nxt = {}
        for q in S:
            for a, s in by.get(q, ()):
                nxt.setdefault(a, set()).add(s)
        for a, T in nxt.items():
            T = frozenset(T)
            if T not in ids:
                ids[T] = len(ids)
                todo.append(T)
            out.setdefault(ids[S], {})[a] = ids[T]
    return reduce(gen.Dfa(len(ids), 0, {k for S, k in ids.items() if S & set(finals)}, out))


def reduce(d):
    """Minimal trimmed automaton, or a single dead state."""
    t = gen.trim(d)
    if t is None:
        return gen.Dfa(1, 0, set(), {})
    cls, DEAD = gen.minimal_classes(t, states=t.reachable())
    names = {}
    for q in sorted(t.reachable(), key=repr):
        names.setdefault(cls[q], len(names))
    m = lambda q: names[cls[q]]  # noqa: E731
    return gen.Dfa(len(names), m(t.init), {m(q) for q in t.finals}, {m(q): {a: m(s) for a, s in x.items()} for q, x in t.tr.items()})


def product(x, y, op):
    def ok(q, d):
        return q is not None and q in d.finals
    start = (x.init, y.init)
    ids, todo, out = {start: 0}, [start], {}
    for p in todo:
        for a in set(x.tr.get(p[0], ())) | set(y.tr.get(p[1], ())):
            t = (x.delta(p[0], a), y.delta(p[1], a))
            if t not in ids:
                ids[t] = len(ids)
                todo.append(t)
            out.setdefault(ids[p], {})[a] = ids[t]
    return reduce(gen.Dfa(len(ids), 0, {k for t, k in ids.items() if op(ok(t[0], x), ok(t[1], y))}, out))


def either(a, b):
    return a or b


def both(a, b):
    return a and b


def reverse(d):
    return subset(d.finals, [d.init], [(r, q, a) for q, r, a in d.edges()])


def of_words(ws):
    ids, tr, fin = {"": 0}, {}, set()
    for w in ws:
        for k in range(len(w)):
            p, q = w[:k], w[:k + 1]
            if q not in ids:
                ids[q] = len(ids)
            tr.setdefault(ids[p], {})[w[k]] = ids[q]
        fin.add(ids[w])
    return reduce(gen.Dfa(len(ids), 0, fin, tr))


def of_nfa(n):
    tr = [(q, s, a) for q, s, a in n.tr if a != n.eps]
    eps = [(q, s) for q, s, a in n.tr if a == n.eps]
    close = {q: gen.closure(None, eps, [q]) for q in {n_ for t in n.tr for n_ in t[:2]} | n.inits | n.finals}
    tr = [(q, t, a) for q, s, a in tr for t in close[s]]
    return subset({x for q in n.inits for x in close[q]}, n.finals, tr)


def acyclic(d):
    state = {}

    def go(q):
        if state.get(q) == 1:
            return False
        if state.get(q) == 2:
            return True
        state[q] = 1
        ok = all(go(s) for s in d.tr.get(q, {}).values())
        state[q] = 2
        return ok
    return all(go(q) for q in list(d.tr))


# ------------------------------------------------------------ starting points and operands
def start(ctx, r, al, kinds=STARTS):
    """(real object, reference)."""
    k = r.choice(kinds)
    ctx.ev("start " + k)
    if k == "random":
        d = gen.dfa(r, alphabet=list(al), n_max=r.choice([3, 6]), acyclic=r.random() < 0.3)
        g, ids = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d, r, churn=r.random() < 0.4)
        return g, reduce(d)
    if k == "expression":
        while True:
            s, t, _, _ = c07.make(ctx, r, c07.PRINTABLE, r.choice([1, 2, 3, 5, 6]), True)
            D = c07.ref_dfa(t)
            if D is not None and D.n < 30 and len(D.alphabet()) < 6 and c07.positions(t) < 25:
                break
        ctx.note(expression=s)
        c = r.random() < 0.5
        if r.random() < 0.5:
            return compile_nfa(s), reduce(D)
        return compile_dfa(s, complete=c), reduce(D)
    if k == "trie":
        ws = [gen.random_string(r, 4, al) for _ in range(r.randint(1, 6))]
        g = Trie()
        for w in ws:
            g.insert(w)
        return g, of_words(ws)
    if k == "suffix trie":
        w, m = gen.random_string(r, 6, al), r.choice([None, 1, 2, 3])
        ctx.note(word=w, max_len=m)
        return make_suffix_trie(w, m), of_words(set(factors(w, m)))
    ref = nfaref.random_nfa(r, list(al), r.choice(["\u03b5", "e"]), n_max=5)
    return nfaref.build_nfa(ref, Nfa, r), of_nfa(ref)


def compare(ctx, g, D, log):
    if isinstance(g, Nfa):
        w = nfaref.difference_nfa_dfa(nfaref.read_nfa(g), D, D.alphabet() | {"a", "b"})
    else:
        try:
            E = gen.read_dfa(g)
        except AssertionError as e:
            ctx.fail(f"the automaton is not deterministic: {e}", steps=log)
        ctx.expect(E.init is not None or not D.finals, "the automaton has lost its initial state", steps=log)
        if E.init is None:
            return
        w = gen.difference(E, D)
    ctx.expect(w is None, "the chain of algorithms has changed the language", steps=log, word=w, automaton=None if isinstance(g, Nfa) else E, expected=D)


def deterministic(ctx, r, g, log):
    if not isinstance(g, Nfa):
        return g
    c = r.random() < 0.5
    log.append(("determinize", c))
    ctx.ev("step determinize")
    out = r.choice([None, Automaton, IncidenceAutomaton])
    return moore_determination(g, out() if out else None, complete=c) if out else moore_determination(g, complete=c)


def incidence(ctx, r, g, log):
    """The automaton copied in a class with in-edges."""
    if isinstance(g, IncidenceAutomaton):
        return g
    log.append("copy")
    ctx.ev("step copy")
    return copy(r, g, IncidenceAutomaton())


def copy(r, g, h):
    ids = {}
    if r.random() < 0.5:
        def dup(u, g_, v, h_):
            ids[u] = v
            h_.set_final(v, g_.is_final(u))
        automaton_copy(g.initial(), g, h, callback_dup_vertex=dup)
    else:
        m = defaultdict(lambda: None)
        automaton_copy(g.initial(), g, h, pmap_vertices=make_assoc_property_map(m))
        ids.update(m)
        for u, v in list(ids.items()):
            if v is not None and g.is_final(u):
                h.set_final(v)
    h.set_initial(ids[g.initial()])
    return h


def to_nfa(r, g, back=False):
    """The automaton, or its mirror, as an NFA."""
    n = Nfa(0)
    ids = {q: n.add_vertex() for q in sorted(g.vertices(), key=lambda q: r.random())}
    for e in g.edges():
        q, s = ids[g.source(e)], ids[g.target(e)]
        n.add_edge(*((s, q) if back else (q, s)), g.label(e))
    fin = {ids[q] for q in g.finals()}
    ini = {ids[g.initial()]}
    if back:
        fin, ini = ini, fin
    n.set_initials(ini)
    for q in fin:
        n.set_final(q)
    return n


def chains(ctx):
    r = ctx.rng
    al = r.choice(["ab", "ab", "a", "abc"])
    g, D = start(ctx, r, al)
    log = []
    ctx.note(start=repr(D), steps=log, cls=type(g).__name__)
    first = repr(D)
    compare(ctx, g, D, log)
    steps = 0
    for _ in range(r.choice([2, 3, 4, 5, 7])):
        if not D.finals or D.n > 25 or g.num_vertices() > 150:
            break
        if isinstance(g, Nfa) and r.random() < 0.8:
            g = deterministic(ctx, r, g, log)
            compare(ctx, g, D, log)
            steps += 1
            continue
        s = r.choice(["hopcroft", "revuz", "prune", "copy", "union", "intersection", "reverse", "to nfa", "insert", "union", "intersection", "trie merge", "same object"])
        if isinstance(g, Nfa) and s not in ("to nfa",):
            g = deterministic(ctx, r, g, log)
        if s == "hopcroft":
            g = incidence(ctx, r, g, log)
            g = hopcroft_minimize(g)
        elif s == "revuz":
            g = incidence(ctx, r, g, log)
            prune_incidence_automaton(g)
            if not acyclic(gen.read_dfa(g)):
                continue
            revuz_minimize(g)
            ctx.eq(g.num_vertices(), D.n, "the result of the chain is not minimal", steps=log)
        elif s == "prune":
            g = incidence(ctx, r, g, log)
            prune_incidence_automaton(g)
        elif s == "copy":
            g = copy(r, g, r.choice([Automaton, IncidenceAutomaton])())
        elif s in ("union", "intersection"):
            h, H = start(ctx, r, al) if r.random() < 0.85 else (DigitalSequence("ab"), of_words(["ab"]))
            if isinstance(h, Nfa):
                h = moore_determination(h, complete=r.random() < 0.5)
            f, op = (deterministic_union, either) if s == "union" else (deterministic_intersection, both)
            x, y = (g, h) if r.random() < 0.5 else (h, g)
            out = r.choice([None, Automaton, IncidenceAutomaton])
            g = f(x, y, out()) if out else f(x, y)
            D = product(D, H, op)
        elif s == "same object":
            g = r.choice([deterministic_union, deterministic_intersection])(g, g)
        elif s == "reverse":
            n = to_nfa(r, g, back=True)
            D = reverse(D)
            if r.random() < 0.3:
                g = n
            else:
                g = moore_determination(n, complete=r.random() < 0.4)
        elif s == "to nfa":
            if isinstance(g, Nfa):
                continue
            g = to_nfa(r, g)
        elif s == "insert":
            w = gen.random_string(r, 4, al)
            t = of_words([w])
            if type(g) is Trie and getattr(g, "pmap_vfinal", None).__class__.__name__ == "AssocPropertyMap":
                g.insert(w)
            else:  # an automaton that is a tree once the word is joined to it
                h = Automaton(1)
                automaton_insert_string(h, w)
                g = deterministic_union(g, h)
            log.append(w)
            D = product(D, t, either)
        elif s == "trie merge":
            ws = [gen.random_string(r, 3, al) for _ in range(r.randint(1, 3))]
            x = Trie()
            for w in ws[:1]:
                x.insert(w)
            y = Trie()
            for w in ws[1:]:
                y.insert(w)
            x.insert(y)
            log.append(ws)
            if type(g) is Trie and r.random() < 0.5:
                x.insert(g)
                g = x
            else:
                g = deterministic_union(g, x)
            D = product(D, of_words(ws), either)
        log.append(s)
        ctx.ev("step " + s)
        steps += 1
        compare(ctx, g, D, log)
    if D.finals and not isinstance(g, Nfa) and r.random() < 0.5:
        h = incidence(ctx, r, g, log)
        prune_incidence_automaton(h)
        compare(ctx, h, D, log + ["prune"])
        m = hopcroft_minimize(h)
        compare(ctx, m, D, log + ["prune", "hopcroft"])
        for w in gen.words(r, al, 4, 6) + [gen.walk(r, D, 6)]:
            ctx.eq(bool(m.accepts(w)), D.accepts(w), "accepts() at the end of the chain", word=w)
    if steps >= 2 and D.finals and D.n > 1:
        ctx.nontrivial(first, repr(log))


def same(ctx, x, y, msg):
    w = gen.difference(gen.read_dfa(x), gen.read_dfa(y))
    ctx.expect(w is None, msg, word=w)


def trimmed(g, r):
    h = copy(r, g, IncidenceAutomaton())
    prune_incidence_automaton(h)
    return h


def laws(ctx):
    """Algebraic laws on the results only."""
    r = ctx.rng
    al = r.choice(["ab", "a", "abc"])
    log = []
    law = LAWS[ctx.i % len(LAWS)]
    ctx.ev("law " + law)
    gs = []
    for _ in range(3):
        g, D = start(ctx, r, al)
        if isinstance(g, Nfa):
            g = moore_determination(g, complete=r.random() < 0.5)
        gs.append((g, D))
    (A, DA), (B, DB), (C, DC) = gs
    ctx.note(law=law, A=DA, B=DB, C=DC)
    U, I = deterministic_union, deterministic_intersection  # noqa: E741
    if law == "distributivity":
        same(ctx, I(A, U(B, C)), U(I(A, B), I(A, C)), "intersection does not distribute over union")
        same(ctx, U(A, I(B, C)), I(U(A, B), U(A, C)), "union does not distribute over intersection")
        same(ctx, U(A, U(B, C)), U(U(A, B), C), "union is not associative")
        same(ctx, I(A, I(B, C)), I(I(A, B), C), "intersection is not associative")
    elif law == "absorption":
        same(ctx, I(A, U(A, B)), A, "absorption of a union")
        same(ctx, U(A, I(A, B)), A, "absorption of an intersection")
        same(ctx, U(A, B), U(B, A), "union is not commutative")
        same(ctx, I(A, B), I(B, A), "intersection is not commutative")
    elif law == "inclusion laws":
        J, V = I(A, B), U(A, B)
        ctx.expect(deterministic_inclusion(J, A) in (1, 0), "an intersection is not included in its operand")
        ctx.expect(deterministic_inclusion(A, V) in (1, 0), "an operand is not included in a union")
        ctx.expect(deterministic_inclusion(V, A) in (-1, 0), "a union is not larger than its operand")
        a, b = only(DA, DB), only(DB, DA)
        want = None if a and b else -1 if a else 1 if b else 0
        ctx.eq(deterministic_inclusion(A, B), want, "inclusion of the operands")
        eq = lambda x, y: deterministic_inclusion(x, y) == 0  # noqa: E731
        ctx.eq((eq(J, A), eq(V, B)), (not a, not a), "A is included in B exactly when the intersection is A and the union is B")
    elif law == "double reversal":
        x = moore_determination(to_nfa(r, A, back=True), complete=r.random() < 0.4)
        y = moore_determination(to_nfa(r, x, back=True), complete=r.random() < 0.4)
        same(ctx, y, A, "reversing twice changes the language")
    elif law == "brzozowski":
        # reversal and determinization, twice, makes the minimal automaton
        if not DA.finals:
            return
        x = moore_determination(to_nfa(r, trimmed(A, r), back=True), complete=False)
        y = moore_determination(to_nfa(r, trimmed(x, r), back=True), complete=False)
        same(ctx, y, A, "reversing twice changes the language")
        ctx.eq(y.num_vertices(), DA.n, "reversal and determinization, twice, do not make a minimal automaton")
        c = moore_determination(to_nfa(r, A), IncidenceAutomaton(), complete=True)
        m = hopcroft_minimize(c)
        same(ctx, m, A, "completing and minimizing changes the language")
        p = m.num_vertices()
        prune_incidence_automaton(m)
        ctx.expect(p - m.num_vertices() in (0, 1) and m.num_vertices() == y.num_vertices(), "two minimizations disagree on the number of states",
                   hopcroft=m.num_vertices(), before=p, brzozowski=y.num_vertices())
    elif law == "sequence as expression":
        w = gen.random_string(r, 5, "ab*(\\[+")
        e = compile_dfa(re_escape(w)) if w else Automaton(1)
        if not w:
            e.set_final(0)
        t = Trie()
        t.insert(w)
        same(ctx, DigitalSequence(w), e, "a sequence is not the language of its escaped expression")
        same(ctx, DigitalSequence(w), t, "a sequence is not the trie of its word")
        k = r.randint(0, 3)
        u = gen.random_string(r, 3, "ab") or "a"
        same(ctx, compile_dfa("(%s){%d}" % (u, k)), compile_dfa(u * k) if k else DigitalSequence(""), "a repetition is not the repeated word")
        v = gen.random_string(r, 3, "ab") or "b"
        same(ctx, compile_dfa(f"{u}|{v}"), U(DigitalSequence(u), DigitalSequence(v)), "an alternative is not a union")
    elif law == "matching is intersection":
        ws, vs = ({gen.random_string(r, 3, "ab") for _ in range(r.randint(0, 5))} for _ in range(2))
        x, y = Trie(), Trie()
        for w in sorted(ws):
            x.insert(w)
        for w in sorted(vs):
            y.insert(w)
        k = trie_matching(x, y)
        ctx.eq([k[1] + k[3], k[2] + k[3], k[3]], [len(ws), len(vs), len(ws & vs)], "matching counters")
        j = I(x, y)
        ctx.eq(len(j.finals()), k[3], "matching disagrees with the intersection")
        n = I(x, DigitalSequence("abab"))
        ctx.eq(len([q for q in n.finals()]), sum(w == "abab" for w in ws), "intersection with a sequence")
        z = Trie()
        z.insert(x)
        z.insert(y)
        same(ctx, z, U(x, y), "merging tries is not their union")
        ctx.eq(deterministic_inclusion(x, z), 0 if vs <= ws else 1, "a trie and its merge with another")
    else:
        # words of a view of the automaton: hiding nothing changes nothing, the words can be inserted again
        d = gen.dfa(r, alphabet=list(al), acyclic=True, n_max=5)
        g, ids = gen.build_dfa(Automaton, d, r)
        ws = ["".join(w) for w in gen.all_words(al, 5) if g.accepts(w)]
        t = Trie()
        for w in r.sample(ws, len(ws)):
            t.insert(w)
        same(ctx, t, g, "a trie of its words is not the automaton")
        view = GraphView(g)
        ctx.eq(sorted(map(repr, view.edges())), sorted(map(repr, g.edges())), "a view with no filter")
        if ws:
            i = incidence(ctx, r, t, log)
            revuz_minimize(i)
            same(ctx, i, g, "the minimized trie is not the automaton")
            ctx.eq(i.num_vertices(), reduce(d).n, "the minimized trie is not minimal")
            e = compile_dfa("|".join(w or "a{0}" for w in ws))
            same(ctx, e, g, "the alternative of its words is not the automaton")
    ctx.nontrivial(law, repr(DA), repr(DB), repr(DC))


FAMILIES = [
    Fam("chains", chains, 12000, 320000),
    Fam("laws", laws, 6400, 160000),
]
