"""C14: DigitalSequence against the automaton of its word; every mutator must refuse."""
from pybgl import automaton as A
from pybgl.automaton import EdgeDescriptor
from pybgl.deterministic_inclusion import deterministic_inclusion
from pybgl.deterministic_intersection import deterministic_intersection
from pybgl.deterministic_union import deterministic_union
from pybgl.digital_sequence import DigitalSequence
from pybgl.graph import is_directed
from pybgl.trie import Trie

from .. import dot, gen
from ..core import Fam

ANCHORS = ["digital_sequence.py"]
RULE = "A case is a word; every query of the sequence is compared with the Trie holding that one word. Non-trivial: the word has a repeated symbol; distinct by word."
REQUIRED = ["empty word", "repeated symbols", "queries compared", "modifications refused", "in-edges compared", "several characters asked at once", "long words", "pictures"]
ASSUMPTIONS = ["queries are made on states of the sequence, or on no state (BOTTOM)"]


def view(ctx, s, w):
    n = len(w)
    t = Trie()
    t.insert(w)
    ctx.eq(sorted(s.vertices()), sorted(t.vertices()), "states")
    ctx.eq((s.num_vertices(), s.num_edges()), (t.num_vertices(), t.num_edges()), "counts")
    E = [(q, q + 1, w[q]) for q in range(n)]

    def ab(es):
        return sorted((s.source(e), s.target(e), s.label(e)) for e in es)

    es = list(s.edges())
    ctx.eq(ab(es), E, "transitions")
    ctx.eq(len(set(es)), n, "distinct transitions")
    ctx.eq(ab(es), sorted((t.source(e), t.target(e), t.label(e)) for e in t.edges()), "transitions of the one-word trie")
    ctx.eq(set(s.alphabet()), set(t.alphabet()), "alphabet()")
    ctx.expect(s.directed and is_directed(s), "a sequence is directed")
    if len(w) < 12:
        a, b = dot.Dot(s.to_dot()), dot.Dot(t.to_dot())
        ctx.eq((a.directed, sorted(a.nodes, key=repr), sorted(a.edges, key=repr)), (b.directed, sorted(b.nodes, key=repr), sorted(b.edges, key=repr)), "picture")
        ctx.ev("pictures")
    ctx.eq(s.initial(), t.initial(), "initial()")
    ctx.eq(set(s.finals()), set(t.finals()), "finals()")
    ctx.eq(bool(s.is_complete()), bool(t.is_complete()), "is_complete()")
    ctx.eq((s.has_vertex(), s.has_edge()), (True, n > 0), "has_vertex()/has_edge()")
    for q in range(n + 1):
        ctx.eq(bool(s.is_final(q)), q == n, "is_final()", q=q)
        ctx.eq(bool(s.is_initial(q)), q == 0, "is_initial()", q=q)
        ctx.eq(set(s.sigma(q)), set(t.sigma(q)), "sigma()", q=q)
        ctx.eq(ab(s.out_edges(q)), [e for e in E if e[0] == q], "out_edges()", q=q)
        ctx.eq(ab(s.in_edges(q)), [e for e in E if e[1] == q], "in_edges()", q=q)
        ctx.ev("in-edges compared")
        ctx.eq(s.out_degree(q), int(q < n), "out_degree()", q=q)
        ctx.eq(s.in_degree(q), int(q > 0), "in_degree()", q=q)
        subs = {w[q:q + 2], w[q:], w[:q], w[max(0, q - 1):q + 1]}
        ctx.ev("several characters asked at once", any(len(a) > 1 for a in subs))
        near = {x for c in w[q:q + 1] for x in (c.swapcase(), chr(ord(c) ^ 1), chr(ord(c) + 1), chr(ord(c) - 1 & 0xff))}
        for a in sorted(set(w) | {"?", ""} | subs | near):
            ctx.eq(s.delta(q, a), t.delta(q, a), "delta()", q=q, a=a)
            for r in {q, q + 1, 0, n}:
                if r <= n:
                    e, ok = s.edge(q, r, a)
                    ctx.eq(bool(ok), (q, r, a) in E, "edge()", q=q, r=r, a=a)
                    if ok:
                        ctx.expect(e in es, "edge() descriptor", q=q, r=r, a=a)
        ctx.ev("queries compared")
    ctx.eq(s.delta(None, "a"), None, "delta() from no state")
    ctx.eq(set(s.sigma(None)), set(), "sigma() of no state")
    ctx.expect(not s.is_final(None) and not s.is_initial(None), "no state is neither initial nor final")


def run(ctx, w):
    r = ctx.rng
    ctx.note(word=w)
    s = DigitalSequence(w)
    view(ctx, s, w)
    t = Trie()
    t.insert(w)
    al = sorted(set(w) | {"?"})
    tries = [w, w + (w[:1] or "x"), w[:-1], w[1:], "", w[::-1], w + w] + ["".join(x) for x in gen.words(r, al, 6, len(w) + 1)]
    for x in tries:
        ctx.eq(bool(s.accepts(x)), x == w, "accepts()", tried=x)
        k = 0
        while k < min(len(x), len(w)) and x[k] == w[k]:
            k += 1
        ctx.eq(tuple(s.delta_best_effort(x)), (k, k), "delta_best_effort()", tried=x)
        ctx.eq(s.delta_word(0, x), k if k == len(x) else None, "delta_word()", tried=x)
        ctx.eq(A.accepts(x, s), x == w, "accepts(w, g)", tried=x)
    muts = {
        "add_edge": lambda: s.add_edge(0, 0, "a"),
        "add_edge()": lambda: A.add_edge(0, 0, "a", s),
        "add_vertex": lambda: s.add_vertex(),
        "remove_vertex": lambda: s.remove_vertex(r.choice(list(s.vertices()))),
        "set_initial": lambda: s.set_initial(0),
        "set_initial(q, False)": lambda: s.set_initial(0, False),
        "set_initial()": lambda: A.set_initial(len(w), s),
        "set_final": lambda: s.set_final(0),
        "set_final(q, False)": lambda: s.set_final(len(w), False),
        "set_final()": lambda: A.set_final(0, s),
        "insert": lambda: s.insert("x"),
        "insert trie": lambda: s.insert(Trie()),
        "clear": lambda: s.clear(),
        "automaton_insert_string": lambda: s.automaton_insert_string(w + "x"),
    }
    if w:
        e = r.choice(list(s.edges()))
        muts["remove_edge"] = lambda: s.remove_edge(e)
        muts["remove_edge of another"] = lambda: s.remove_edge(EdgeDescriptor(0, 1, w[0]))
    for k in r.sample(sorted(muts), 6):
        ctx.raises(RuntimeError, muts[k], f"{k} was not refused")
        ctx.ev("modifications refused")
    view(ctx, s, w)
    # the sequence is usable where an automaton is
    x = gen.random_string(r, 5, "ab")
    u = Trie()
    u.insert(x)
    ctx.eq(deterministic_inclusion(s, t), 0, "the sequence and the one-word trie are compared equal")
    ctx.eq(deterministic_inclusion(s, u), 0 if x == w else None, "inclusion in another word's trie", other=x)
    un, it = deterministic_union(s, u), deterministic_intersection(s, u)
    for y in {w, x, w + "a", ""}:
        ctx.eq(bool(un.accepts(y)), y in (w, x), "union with a trie", other=x, tried=y)
        ctx.eq(bool(it.accepts(y)), y == w == x, "intersection with a trie", other=x, tried=y)
    if not w:
        ctx.ev("empty word")
    if len(set(w)) < len(w):
        ctx.ev("repeated symbols")
        ctx.nontrivial(w)


def rand(ctx):
    w = gen.random_string(ctx.rng, ctx.rng.choice([2, 6, 12, 30]), *ctx.rng.choice([(), (), ("a\0 \n",)]))
    run(ctx, w)
    ctx.sample(word=w)


def exhaustive(ctx):
    i, n = ctx.i, 0
    while i >= 2 ** n:
        i -= 2 ** n
        n += 1
    run(ctx, "".join("ab"[i >> k & 1] for k in range(n)))


def long(ctx):
    r = ctx.rng
    al = r.choice(["ab", "abcdefghij", "aAbBcC", "".join(chr(0x4e00 + j) for j in range(60))])
    n = r.choice([64, 100, 270])
    run(ctx, "".join(r.choice(al) for _ in range(n)))
    ctx.ev("long words")


FAMILIES = [
    Fam("long", long, 96, 1200),
    Fam("exhaustive", exhaustive, 255, 1023), Fam("rand", rand, 4800, 80000)]
