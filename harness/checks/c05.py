"""C05: NFA store lock-step and acceptance against a reference path semantics."""
from collections import defaultdict

from pybgl import nfa as N
from pybgl.nfa import EPSILON, Nfa
from pybgl.property_map import make_assoc_property_map

from .. import gen
from ..core import Fam
from ..nfaref import RefNfa, build_nfa, random_nfa

ANCHORS = ["nfa.py"]
RULE = (
    "A case is a random NFA (epsilon cycles, several or no initial states, custom epsilon) whose answers are compared with a path search, or a history "
    "of updates compared with a set of transitions after every operation. Non-trivial: the NFA has an epsilon move or two transitions on one symbol "
    "and accepts some but not all tried words / the history removed a transition; distinct by NFA or history."
)
REQUIRED = ["words run", "words accepted", "epsilon cycles", "several initial states", "op remove_edge", "op remove_vertex", "parallel labels", "custom epsilon", "large automata", "asked in a history"]
ASSUMPTIONS = ["the epsilon symbol is not used inside words", "a transition added twice counts once (existing tests)"]


def run(ctx):
    r = ctx.rng
    eps = r.choice([EPSILON, EPSILON, "e!", None, 0])
    al = r.choice([a for a in gen.ALPHABETS if eps not in a])
    ref = random_nfa(r, al, eps, n_max=r.choice([1, 3, 6]))
    g = build_nfa(ref, Nfa, r)
    ctx.note(nfa=ref, eps=eps)
    if eps != EPSILON:
        ctx.ev("custom epsilon")
    if ref.has_eps_cycle():
        ctx.ev("epsilon cycles")
    if len(ref.inits) > 1:
        ctx.ev("several initial states")
    ws = list(gen.all_words(al, 3 if len(al) < 3 else 2)) + gen.words(r, al + ["?"], 15, 8)
    strs = all(isinstance(a, str) and len(a) == 1 for a in al)
    acc = 0
    for w in ws:
        x = "".join(w) if strs and r.random() < 0.7 else w
        ctx.note(word=x)
        qs = ref.run(w)
        ctx.eq(set(g.delta_word(x)), qs, "delta_word()")
        ctx.eq(set(N.delta_word(x, g)), qs, "delta_word(w, nfa)")
        want = bool(qs & ref.finals)
        ctx.eq(bool(g.accepts(x)), want, "accepts()")
        ctx.ev("words run")
        acc += want
    ctx.ev("words accepted", acc)
    for q in range(ref.n):
        for a in al + ["?"]:
            ctx.eq(set(g.delta(q, a)), ref.step({q}, a), "delta(q, a)", q=q, a=a)
        ctx.eq(set(g.delta_epsilon({q})), ref.close({q}), "delta_epsilon()", q=q)
        ctx.eq(set(g.sigma(q)), {a for p in ref.close({q}) for (s, t, a) in ref.tr if s == p and a != eps}, "sigma()", q=q)
    qs = {q for q in range(ref.n) if r.random() < 0.5}
    arg = set(qs)
    ctx.eq(set(g.delta_epsilon(arg)), ref.close(qs), "delta_epsilon() of a set", qs=qs)
    ctx.eq(arg, qs, "delta_epsilon() altered its argument")
    ctx.eq(set(g.initials), ref.inits, "queries changed the initial states")
    check_store(ctx, g, ref)
    if 0 < acc < len(ws) and (any(a == eps for _, _, a in ref.tr) or len({(q, a) for q, _, a in ref.tr}) < len(ref.tr)):
        ctx.nontrivial(repr(ref))
    ctx.sample(nfa=ref, words=len(ws), accepted=acc)


def check_store(ctx, g, ref, vs=None):
    vs = list(range(ref.n)) if vs is None else vs
    eps = ref.eps
    ctx.eq(sorted(g.vertices()), sorted(vs), "states")
    es = list(g.edges())
    ctx.eq(sorted(((g.source(e), g.target(e), g.label(e)) for e in es), key=repr), sorted(ref.tr, key=repr), "transitions listed by edges()")
    ctx.eq(len(set(es)), len(es), "edges() lists equal descriptors")
    ctx.eq(g.num_edges(), len(ref.tr), "num_edges()")
    for e in es:
        ctx.eq(bool(g.is_epsilon_transition(e)), g.label(e) == eps, "is_epsilon_transition()")
    ctx.eq(set(g.alphabet()), {a for _, _, a in ref.tr if a != eps}, "alphabet()")
    ctx.eq(sorted(g.finals()), sorted(ref.finals), "finals()")
    ctx.eq(set(N.initials(g)), ref.inits, "initials()")
    for q in vs:
        out = list(g.out_edges(q))
        ctx.eq(sorted(((g.source(e), g.target(e), g.label(e)) for e in out), key=repr),
               sorted((t for t in ref.tr if t[0] == q), key=repr), "out_edges()", q=q)
        ctx.expect(set(out) <= set(es), "out_edges() gives descriptors that edges() does not", q=q)
        ctx.eq(g.out_degree(q), len(out), "out_degree()", q=q)
        ctx.eq(bool(g.is_final(q)), q in ref.finals, "is_final()", q=q)
        ctx.eq(bool(g.is_initial(q)), q in ref.inits, "is_initial()", q=q)
        ctx.eq(set(g.sigma(q)), {a for p in ref.close({q}) for (s, t, a) in ref.tr if s == p and a != eps}, "sigma()", q=q)


def history(ctx):
    r = ctx.rng
    eps = r.choice([EPSILON, "#"])
    al = r.choice([["a"], ["a", "b"], [0, 1, 2], [("x",), ("y",)]]) + [eps]
    given, given0 = None, None
    g = Nfa(epsilon=eps) if eps != EPSILON else Nfa()
    if r.random() < 0.2:
        # initial states given to the constructor: the set remains the caller's
        given = {0}
        g = Nfa(initials=given, epsilon=eps)
        if r.random() < 0.5:
            given.add(1)
        given0 = set(given)
    if eps != EPSILON:
        ctx.ev("custom epsilon")
    ref = RefNfa(0, {0}, set(), set(), eps)
    vs, ops, removed = [], [], 0
    ctx.note(ops=ops, eps=eps)
    cap = r.choice([1, 2, 4])
    if r.random() < 0.03:
        # many states, most of them initial or final
        cap = 60
        for _ in range(r.choice([20, 40])):
            q = g.add_vertex()
            vs.append(q)
            g.set_initial(q)
            g.set_final(q)
            ref.inits.add(q)
            ref.finals.add(q)
            ops.append(("av", q))
        ctx.ev("many initial states")
    ws = gen.words(r, al[:-1], 2, 3)  # asked again and again
    for _ in range(r.choice([12, 30, 50])):
        x = r.random()
        if not vs or (x < 0.15 and len(vs) < cap):
            q = g.add_vertex()
            ctx.expect(q not in vs, "add_vertex() reused an identifier", q=q)
            vs.append(q)
            ops.append(("av", q))
        elif x < 0.55:
            t = (r.choice(vs), r.choice(vs), r.choice(al))
            if ref.tr and r.random() < 0.3:
                p = r.choice(sorted(ref.tr, key=repr))
                t = (p[0], p[1], r.choice(al))
            e, ok = g.add_edge(*t)
            ops.append(("ae",) + t)
            ref.tr.add(t)
            if len([1 for y in ref.tr if y[:2] == t[:2]]) > 1:
                ctx.ev("parallel labels")
            ctx.expect(e in set(g.edges()) and g.label(e) == t[2] and (g.source(e), g.target(e)) == t[:2],
                       "descriptor returned by add_edge()", t=t, e=e, ok=ok)
        elif x < 0.72 and ref.tr:
            t = r.choice(sorted(ref.tr, key=repr))
            e = next(e for e in g.out_edges(t[0]) if (g.source(e), g.target(e), g.label(e)) == t)
            g.remove_edge(e)
            ref.tr.discard(t)
            ops.append(("re",) + t)
            removed += 1
            ctx.ev("op remove_edge")
        elif x < 0.79:
            q = r.choice(vs)
            g.set_initial(q, False)
            ref.inits.discard(q)
            if r.random() < 0.5:
                g.set_final(q, False)
            g.remove_vertex(q)
            ref.finals.discard(q)
            vs.remove(q)
            ref.tr = {t for t in ref.tr if q not in t[:2]}
            ops.append(("rv", q))
            removed += 1
            ctx.ev("op remove_vertex")
        elif x < 0.88:
            q, b = r.choice(vs), r.random() < 0.6
            g.set_final(q, b)
            (ref.finals.add if b else ref.finals.discard)(q)
            ops.append(("sf", q, b))
        elif x < 0.95:
            q, b = r.choice(vs), r.random() < 0.6
            g.set_initial(q, b)
            (ref.inits.add if b else ref.inits.discard)(q)
            ops.append(("si", q, b))
        elif x < 0.985:
            qs = {q for q in vs if r.random() < 0.5}
            given = r.choice([set, list])(qs)
            (g.set_initials if r.random() < 0.5 else lambda z: N.set_initials(z, g))(given)
            ref.inits = set(qs)
            if isinstance(given, set) and r.random() < 0.5:
                # the caller's set remains the caller's
                given ^= {r.choice(vs)}
            given0 = type(given)(given)
            ops.append(("sis", qs))
        else:
            g.clear()
            g.set_initials(set())
            vs = []
            ref.tr, ref.finals, ref.inits = set(), set(), set()
            ops.append("cl")
        check_store(ctx, g, ref, vs)
        ctx.eq(given, given0, "the set of initial states given was altered")
        for w in ws:
            x = ref.run(w)
            ctx.eq(set(g.delta_word(w)), x, "delta_word() in a history", word=w)
            ctx.eq(bool(g.accepts(w)), bool(x & ref.finals), "accepts() in a history", word=w)
        for q in vs[:2]:
            ctx.eq(set(g.delta(q, al[0])), ref.step({q}, al[0]), "delta() in a history", q=q, a=al[0])
            ctx.eq(set(g.delta_epsilon({q})), ref.close({q}), "delta_epsilon() in a history", q=q)
        ctx.ev("asked in a history")
    for w in gen.words(r, al[:-1], 6, 5):
        ctx.eq(bool(g.accepts(w)), bool(ref.run(w) & ref.finals), "accepts() after updates", word=w)
        ctx.ev("words run")
    if removed:
        ctx.nontrivial(repr(ops))
    ctx.sample(ops=ops)


def exhaustive(ctx):
    """Every 2-state NFA over {a, epsilon}, all initial/final sets, every word up to length 3."""
    i = ctx.i
    tr = set()
    for t in [(q, s, a) for q in range(2) for s in range(2) for a in ("a", EPSILON)]:
        i, b = i // 2, i % 2
        if b:
            tr.add(t)
    i, inits = i // 4, i % 4
    fin = i % 4
    ref = RefNfa(2, {q for q in range(2) if inits >> q & 1}, {q for q in range(2) if fin >> q & 1}, tr, EPSILON)
    g = Nfa(2)
    g.set_initials(set(ref.inits))
    for t in sorted(tr):
        g.add_edge(*t)
    for q in ref.finals:
        g.set_final(q)
    ctx.note(nfa=ref)
    for n in range(4):
        w = "a" * n
        ctx.eq(set(g.delta_word(w)), ref.run(w), "delta_word()", word=w)
        ctx.eq(bool(g.accepts(w)), bool(ref.run(w) & ref.finals), "accepts()", word=w)
        ctx.ev("words run")
    check_store(ctx, g, ref)
    ctx.nontrivial(repr(ref))


def direct(ctx):
    r = ctx.rng
    n = r.randint(1, 5)
    inits = {q for q in range(n) if r.random() < 0.5} or {r.randrange(n)}
    fin = {q for q in range(n) if r.random() < 0.5}
    g = Nfa(n, set(inits), make_assoc_property_map(defaultdict(bool, {q: True for q in fin})), "@")
    ctx.note(n=n, inits=inits, fin=fin)
    check_store(ctx, g, RefNfa(n, inits, fin, set(), "@"))
    ctx.eq(g.epsilon, "@", "epsilon")
    ctx.eq(N.epsilon(g), "@", "epsilon(nfa)")
    ctx.eq(bool(g.accepts("")), bool(inits & fin), "accepts the empty word")


def big(ctx):
    """Long chains of transitions or of epsilon moves, wide alphabets, many initial states, long words."""
    r = ctx.rng
    kind = ["chain", "epsilon chain", "wide", "fan", "random", "front"][ctx.i % 6]
    al = ["a", "b"]
    tr = set()
    n = r.choice([30, 120, 300])
    inits, fin = {0}, {n - 1}
    if kind == "chain":
        tr = {(k, k + 1, r.choice(al)) for k in range(n - 1)} | {(k, k + 1, r.choice(al)) for k in range(n - 1)}
        tr |= {(r.randrange(n), r.randrange(n), EPSILON) for _ in range(r.choice([0, 3]))}
    elif kind == "epsilon chain":
        tr = {(k, k + 1, EPSILON) for k in range(n - 1) if k != n // 2} | {(n // 2, n // 2 + 1, "a"), (n - 1, 0, "b")}
    elif kind == "wide":
        n = r.randint(3, 6)
        al = gen.wide_alphabet(r, r.choice([60, 280]))
        tr = {(r.randrange(n), r.randrange(n), r.choice(al)) for _ in range(3 * len(al))} | {(0, n - 1, EPSILON)}
        fin = {n - 1}
    elif kind == "fan":
        tr = {(0, k, "a") for k in range(1, n)} | {(k, n - 1, "b") for k in range(1, n, 2)} | {(0, k, EPSILON) for k in range(1, n, 3)}
        inits = {q for q in range(n) if r.random() < 0.5}
        fin = {n - 1, r.randrange(n)}
    elif kind == "front":  # many states at once, each on its own way
        m = r.choice([30, 100, 280])
        n = 3 * m + 1
        tr = {(0, 1 + k, r.choice(["a", "a", EPSILON])) for k in range(m)} | {(1 + k, 1 + m + k, "b") for k in range(m)}
        tr |= {(1 + m + k, 1 + 2 * m + k, r.choice(["a", "b", EPSILON])) for k in range(m)} | {(1 + 2 * m + k, 1 + r.randrange(m), "a") for k in range(m)}
        fin = {1 + r.randrange(3 * m)}
    else:
        n = r.choice([20, 50])
        fin = {q for q in range(n) if r.random() < 0.2}
        tr = {(r.randrange(n), r.randrange(n), r.choice(al + [EPSILON])) for _ in range(3 * n)}
        inits = {q for q in range(n) if r.random() < 0.2} or {0}
    ref = RefNfa(n, inits, fin, tr, EPSILON)
    g = build_nfa(ref, Nfa, r)
    ctx.note(kind=kind, n=n, nfa=ref)
    check_store(ctx, g, ref)
    by = {}
    for q, s, a in sorted(tr, key=repr):
        by.setdefault(q, []).append((s, a))
    for _ in range(5):
        q, w, m = r.choice(sorted(inits)), [], r.choice([3, 20, 250])
        while len(w) < m and by.get(q) and r.random() < 0.995:
            q, a = r.choice(by[q])
            if a != EPSILON:
                w.append(gen.fresh(a))
        for x in (w, w[:-1], w + [gen.fresh(r.choice(al))]):
            qs = ref.run(x)
            ctx.note(word=x)
            ctx.eq(set(g.delta_word(x)), qs, "delta_word()")
            ctx.eq(bool(g.accepts(x)), bool(qs & fin), "accepts()")
            ctx.ev("words run")
    for q in r.sample(range(n), min(n, 6)):
        ctx.eq(set(g.delta_epsilon({q})), ref.close({q}), "delta_epsilon()", q=q)
    qs = {q for q in range(n) if r.random() < 0.4}
    ctx.eq(set(g.delta_epsilon(set(qs))), ref.close(qs), "delta_epsilon() of a set", qs=qs)
    for t in r.sample(sorted(tr, key=repr), min(len(tr), 8)):
        e = next(e for e in g.out_edges(t[0]) if (g.source(e), g.target(e), g.label(e)) == t)
        g.remove_edge(e)
        ref.tr.discard(t)
    check_store(ctx, g, ref)
    ctx.ev("large automata")
    ctx.nontrivial(kind, n, repr(ref)[:2000])


FAMILIES = [
    Fam("big", big, 300, 6000),
    Fam("exhaustive", exhaustive, 4096, 4096),
    Fam("run", run, 9000, 180000),
    Fam("history", history, 7500, 150000),
    Fam("direct", direct, 200, 1000),
]
