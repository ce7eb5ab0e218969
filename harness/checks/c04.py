"""C04: runs of deterministic automata against a reference run."""
import contextlib
import io

from pybgl import automaton as A
from pybgl.automaton import Automaton, BOTTOM
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.node_automaton import NodeAutomaton
from pybgl.property_map import make_func_property_map

from .. import gen
from ..core import Fam

ANCHORS = ["automaton.py", "node_automaton.py", "incidence_automaton.py"]
RULE = (
    "A case is a random automaton (edge- or node-labelled) with every word up to a length and random longer ones, unknown symbols included, "
    "run on the automaton and on the abstract one; or a sequence of word insertions compared with a set of words. "
    "Non-trivial: some word is accepted and some rejected; distinct by automaton."
)
REQUIRED = ["words run", "words accepted", "words leading nowhere", "no state yet", "best-effort stops", "complete automata", "incomplete automata",
            "insertions", "no initial state", "large automata"]


def run(ctx):
    r = ctx.rng
    C = [Automaton, IncidenceAutomaton, NodeAutomaton, IncidenceNodeAutomaton][ctx.i % 4]
    al = r.choice(gen.ALPHABETS)
    n_max = r.choice([1, 2, 4, 7])
    if ctx.i % 4 < 2:
        d = gen.dfa(r, n_max, al, complete=r.random() < 0.35)
        g, ids = gen.build_dfa(C, d, r, churn=r.random() < 0.3)
    else:
        d, sym = gen.node_dfa(r, n_max, al)
        g, ids = gen.build_node_dfa(C, d, sym, r)
    back = {v: k for k, v in ids.items()}
    ctx.note(cls=C.__name__, dfa=d, ids=ids)
    none = r.random() < 0.06
    if none:
        g.set_initial(ids[d.init], False)
        ctx.ev("no initial state")
        d.init = None
    strs = all(isinstance(a, str) and len(a) == 1 for a in al)
    ws = list(gen.all_words(al + ["?"], 3 if len(al) < 3 else 2)) + gen.words(r, al, 25, 12) + gen.words(r, al + ["?"], 10, 6)
    # words along existing transitions
    for _ in range(15):
        q, w = d.init, []
        while q is not None and d.tr.get(q) and r.random() < 0.9 and len(w) < 15:
            a = r.choice(sorted(d.tr[q], key=repr))
            w.append(a)
            q = d.tr[q][a]
        ws.append(tuple(w))
    acc = 0
    for w in ws:
        x = "".join(w) if strs and r.random() < 0.7 else (list(w) if r.random() < 0.5 else w)
        ctx.note(word=x)
        want = d.accepts(w)
        got = g.accepts(x) if r.random() < 0.7 else A.accepts(x, g)
        ctx.eq(bool(got), want, "accepts()")
        ctx.ev("words run")
        acc += want
        end = d.run(w)
        if d.init is not None:
            ctx.eq(g.delta_word(g.initial(), x), ids[end] if end is not None else BOTTOM, "delta_word() from the initial state")
            q, i = d.init, 0
            for a in w:
                s = d.delta(q, a)
                if s is None:
                    break
                q, i = s, i + 1
            if i < len(w):
                ctx.ev("best-effort stops")
            ctx.eq(tuple(g.delta_best_effort(x)), (ids[q], i), "delta_best_effort()")
            ctx.eq(tuple(A.delta_best_effort(g, x)), (ids[q], i), "delta_best_effort(g, w)")
        if end is None:
            ctx.ev("words leading nowhere")
        q = r.randrange(d.n)
        s = q
        for a in w:
            s = d.delta(s, a)
        ctx.eq(A.delta_word(ids[q], x, g), ids[s] if s is not None else BOTTOM, "delta_word() from any state", q=q)
    ctx.ev("words accepted", acc)
    comp = all(set(d.tr.get(q, ())) == d.alphabet() for q in range(d.n))
    if ctx.i % 4 < 2 or d.alphabet() == {a for q, a in sym.items() if q != d.init}:
        ctx.eq(bool(g.is_complete()), comp, "is_complete()", alphabet=d.alphabet())
        ctx.ev("complete automata" if comp else "incomplete automata")
    ctx.expect(g.is_finite() and g.is_deterministic(), "a deterministic automaton says it is not")
    if d.init is not None:
        for w in r.sample(ws, min(3, len(ws))):
            with contextlib.redirect_stdout(io.StringIO()):
                got = A.accepts_debug(w, g)
            ctx.eq(bool(got), d.accepts(w), "accepts_debug()", word=w)
    if 0 < acc < len(ws):
        ctx.nontrivial(C.__name__, repr(d))
    ctx.sample(cls=C.__name__, dfa=d, words=len(ws), accepted=acc)


def insert(ctx):
    r = ctx.rng
    C = [Automaton, IncidenceAutomaton][ctx.i % 2]
    al = r.choice(["a", "ab", "abc", "aé雪"])
    x = r.random()
    if x < 0.6:
        g = C(1)
    elif x < 0.8:
        # no state yet: the first insertion makes the initial one
        g = C()
        ctx.ev("no state yet")
    else:
        g = C(r.randint(1, 4))
        g.automaton_insert_string(gen.random_string(r, 5, al))
        g.clear()
        ctx.ev("no state yet")
    S, P = set(), {""}
    seq = []
    ctx.note(seq=seq)
    for _ in range(r.randint(1, 12)):
        w = gen.random_string(r, r.choice([0, 2, 6]), al)
        if S and r.random() < 0.25:
            w = r.choice(sorted(S))
        elif S and r.random() < 0.3:
            w = r.choice(sorted(S)) + w
        seq.append(w)
        (g.automaton_insert_string if r.random() < 0.5 else lambda x: A.automaton_insert_string(g, x))(w)
        S.add(w)
        P |= {w[:i] for i in range(len(w) + 1)}
        ctx.ev("insertions")
        ctx.eq(g.num_vertices(), len(P), "an automaton with words inserted has one state per prefix")
        ctx.eq(g.num_edges(), len(P) - 1, "an automaton with words inserted is a tree")
        for x in sorted(P) + list(gen.all_words(al + "?", 3 if len(al) == 1 else 2)) + [gen.random_string(r, 7, al) for _ in range(10)]:
            x = "".join(x)
            ctx.eq(bool(g.accepts(x)), x in S, "acceptance after insertions", word=x)
    ctx.nontrivial(repr(seq))


def insert_general(ctx):
    """Inserting in any automaton makes the word accepted and loses no word."""
    r = ctx.rng
    d = gen.dfa(r, 5, r.choice(gen.CHAR_ALPHABETS))
    g, ids = gen.build_dfa(Automaton, d, r)
    al = sorted(d.alphabet()) + ["z"]
    w = gen.random_string(r, 6, "".join(al))
    ctx.note(dfa=d, w=w)
    g.automaton_insert_string(w)
    ctx.ev("insertions")
    ctx.expect(g.accepts(w), "an inserted word is not accepted")
    for x in gen.all_words(al[:2], 4):
        if d.accepts(x):
            ctx.expect(g.accepts(x), "an insertion lost a word", word=x)
    ctx.eq(gen.read_dfa(g).run(w) is not None, True, "inserted word has a path")


def exhaustive(ctx):
    """Every partial automaton with 2 states over 2 symbols, every word up to length 4."""
    i = ctx.i
    fin, i = i % 4, i // 4
    init, i = i % 2, i // 2
    tr = {}
    for q in range(2):
        for a in "ab":
            i, t = i // 3, i % 3
            if t:
                tr.setdefault(q, {})[a] = t - 1
    d = gen.Dfa(2, init, {q for q in range(2) if fin >> q & 1}, tr)
    g, ids = gen.build_dfa(Automaton, d)
    ctx.note(dfa=d)
    for w in gen.all_words("ab", 4):
        ctx.eq(bool(g.accepts("".join(w))), d.accepts(w), "accepts()", word=w)
        ctx.ev("words run")
    ctx.nontrivial(repr(d))


def pmap(ctx):
    """Final states given by a computed property map."""
    r = ctx.rng
    m = r.randint(2, 3)
    n = r.randint(1, 6)
    g = Automaton(n, r.randrange(n), make_func_property_map(lambda q: q % m == 0))
    tr = {}
    for _ in range(8):
        q, s, a = r.randrange(n), r.randrange(n), r.choice("ab")
        if a not in tr.setdefault(q, {}):
            tr[q][a] = s
            g.add_edge(q, s, a)
    d = gen.Dfa(n, g.initial(), {q for q in range(n) if q % m == 0}, tr)
    ctx.note(dfa=d)
    for w in gen.all_words("ab", 4):
        ctx.eq(bool(g.accepts("".join(w))), d.accepts(w), "accepts()", word=w)
        ctx.ev("words run")


def big(ctx):
    """Many states or symbols, long words."""
    r = ctx.rng
    d = gen.big_dfa(r)
    g, ids = gen.build_dfa([Automaton, IncidenceAutomaton][ctx.i % 2], d, r)
    al = sorted(d.alphabet(), key=repr)
    ws = [gen.walk(r, d, r.choice([5, 60, 300, 2500])) for _ in range(12)]
    ws += [w[:-1] + (gen.fresh(r.choice(al)),) for w in ws[:4]] + [w + ("?",) for w in ws[:3]]
    for w in ws[:2]:
        if w:
            k = r.randrange(len(w))
            ws.append(w[:k] + ("?",) + w[k + 1:])
    strs = all(isinstance(a, str) and len(a) == 1 for a in al)
    ctx.note(dfa=d)
    seen = set()
    for w in ws:
        x = "".join(w) if strs else w
        ctx.note(length=len(w), word=x)
        want = d.accepts(w)
        ctx.eq(bool(g.accepts(x)), want, "accepts()")
        end = d.run(w)
        ctx.eq(g.delta_word(ids[d.init], x), ids[end] if end is not None else BOTTOM, "delta_word()")
        q, i = d.init, 0
        while i < len(w) and d.delta(q, w[i]) is not None:
            q, i = d.delta(q, w[i]), i + 1
        ctx.eq(tuple(g.delta_best_effort(x)), (ids[q], i), "delta_best_effort()")
        ctx.ev("words run")
        if len(w) < 400 and r.random() < 0.4:
            with contextlib.redirect_stdout(io.StringIO()):
                got = A.accepts_debug(x, g)
            ctx.eq(bool(got), want, "accepts_debug()")
        seen.add(want)
    comp = all(set(d.tr.get(q, ())) == d.alphabet() for q in range(d.n))
    ctx.eq(bool(g.is_complete()), comp, "is_complete()")
    if not comp:  # completed but for one transition, then completed
        free = [(q, a) for q in range(d.n) for a in al if d.delta(q, a) is None]
        r.shuffle(free)
        for q, a in free[:-1]:
            g.add_edge(ids[q], ids[0], a)
        ctx.eq(bool(g.is_complete()), False, "is_complete() with one transition missing", missing=free[-1])
        g.add_edge(ids[free[-1][0]], ids[0], free[-1][1])
        ctx.eq(bool(g.is_complete()), True, "is_complete() of a completed automaton")
    ctx.ev("large automata")
    ctx.nontrivial(repr(d)[:2000], len(seen))


def big_insert(ctx):
    """Many or long words inserted."""
    r = ctx.rng
    al = r.choice(["a", "ab", "abcdefgh", "".join(chr(0x4e00 + k) for k in range(300))])
    n = r.choice([3, 40, 150])
    ws = [gen.random_string(r, r.choice([8, 30] if n > 3 else [400, 1500]), al) for _ in range(n)]
    if r.random() < 0.3:
        ws = [a for a in al] + ws
    g = [Automaton, IncidenceAutomaton][ctx.i % 2](1)
    ctx.note(words=ws)
    for w in ws:
        g.automaton_insert_string(w)
        ctx.ev("insertions")
    P = {w[:k] for w in ws for k in range(len(w) + 1)} | {""}
    S = set(ws)
    ctx.eq((g.num_vertices(), g.num_edges()), (len(P), len(P) - 1), "an automaton with words inserted has one state per prefix")
    tries = ws + [w[:-1] for w in ws] + [w + al[0] for w in ws] + r.sample(sorted(P), min(40, len(P)))
    for x in tries:
        ctx.eq(bool(g.accepts(x)), x in S, "acceptance after insertions", word=x)
        ctx.ev("words run")
    ctx.ev("large automata")
    ctx.nontrivial(repr(ws)[:2000])


FAMILIES = [
    Fam("big", big, 640, 12000),
    Fam("big_insert", big_insert, 320, 6000),
    Fam("exhaustive", exhaustive, 648, 648),
    Fam("run", run, 12000, 240000),
    Fam("insert", insert, 3200, 80000),
    Fam("insert_general", insert_general, 1600, 40000),
    Fam("pmap", pmap, 400, 8000),
]
