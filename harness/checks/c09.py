"""C09: Revuz minimization, judged on the automaton left and on the trace of its visitor."""
from collections import defaultdict

from pybgl.automaton import automaton_insert_string
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.revuz_minimize import DefaultRevuzMinimizeVisitor, revuz_height, revuz_minimize

from .. import gen
from ..core import Fam

ANCHORS = ["revuz_minimize.py", "incidence_node_automaton.py", "incidence_automaton.py"]
RULE = (
    "A case is a trimmed acyclic deterministic automaton (random DAG, trie, or a compact DAG unfolded at random) minimized in place with a recording "
    "visitor, then compared with its original by exact pair search and by recomputing the residual language of every remaining state. "
    "Non-trivial: at least one pair of states was merged; distinct by automaton."
)
REQUIRED = ["node automaton", "edge automaton", "merges", "moved transitions", "already minimal", "heights compared", "leaves given", "many states or symbols", "many transitions, few of which differ"]
ASSUMPTIONS = ["the automaton is acyclic, every state is reachable and leads to a final state"]


class Rec(DefaultRevuzMinimizeVisitor):
    def __init__(self, ctx, node):
        self.ctx, self.node, self.log = ctx, node, []

    def merging_states(self, q1, q2, g):
        self.log.append(("merging", q1, q2))
        vs = set(g.vertices())
        self.ctx.expect(q1 in vs and q2 in vs and q1 != q2, "merging_states() on states that are not two present states", q1=q1, q2=q2)
        self.due, self.moved = set(g.in_edges(q2)), []

    def move_transition(self, e_old, e_new, g):
        self.log.append(("move", (g.source(e_old), g.target(e_old)), (g.source(e_new), g.target(e_new))))
        self.moved.append(e_old)
        self.ctx.expect(self.node or g.label(e_old) == g.label(e_new), "move_transition(): the symbol changed")
        self.ctx.expect(e_new in set(g.out_edges(g.source(e_new))), "move_transition(): the new transition does not exist")
        self.ctx.expect(g.source(e_old) == g.source(e_new), "move_transition(): the source changed")

    def remove_vertex(self, u, g):
        self.log.append(("remove", u))
        self.ctx.expect(g.in_degree(u) == 0, "remove_vertex() announced for a state which still has in-transitions", u=u)

    def states_merged(self, q1, q2, g):
        self.log.append(("merged", q1, q2))
        self.ctx.eq((len(self.moved), set(self.moved)), (len(self.due), self.due), "the transitions announced as moved are not those to the removed state", q1=q1, q2=q2)
        self.ctx.expect(q2 not in set(g.vertices()) and q1 in set(g.vertices()), "states_merged(): wrong states remain", q1=q1, q2=q2)


def residuals(d):
    """{state: frozenset id of its language} of an acyclic automaton (hash-consed)."""
    ids, out = {}, {}
    import sys
    sys.setrecursionlimit(20000)

    def go(q):
        if q not in out:
            key = (q in d.finals, frozenset((repr(a), go(r)) for a, r in d.tr.get(q, {}).items()))
            out[q] = ids.setdefault(key, len(ids))
        return out[q]

    for q in set(d.tr) | d.finals | {r for _, r, _ in d.edges()} | {d.init}:
        go(q)
    return out


def longest(d, q, memo):
    if q not in memo:
        memo[q] = max((1 + longest(d, r, memo) for r in d.tr.get(q, {}).values()), default=0)
    return memo[q]


def judge(ctx, g, node):
    d = gen.read_dfa(g)
    sym = {q: g.symbol(q) for q in g.vertices()} if node else {}
    init = g.initial()
    memo = {}
    vs = sorted(g.vertices())
    want = {q: longest(d, q, memo) for q in vs}
    snap = gen.snapshot(g)
    hmap = defaultdict(int)
    leaves = {q for q in vs if not d.tr.get(q)}
    r = ctx.rng
    h = revuz_height(g, make_assoc_property_map(hmap), set(leaves)) if r.random() < 0.4 else revuz_height(g, make_assoc_property_map(hmap))
    ctx.eq({q: hmap[q] for q in vs}, want, "revuz_height(): heights")
    ctx.eq(h, max(want.values()), "revuz_height(): maximum")
    ctx.eq(gen.snapshot(g), snap, "revuz_height() altered the automaton")
    ctx.ev("heights compared", len(vs))
    rec = Rec(ctx, node)
    kw = {}
    if r.random() < 0.3:
        arg = kw["leaves"] = set(leaves)
        ctx.ev("leaves given")
    if node and r.random() < 0.3:
        kw["pmap_vlabel"] = make_func_property_map(g.symbol)
    if r.random() < 0.3:
        kw["pmap_elabel"] = make_func_property_map((lambda e: g.symbol(g.target(e))) if node else g.label)
    if r.random() < 0.9:
        kw["vis"] = rec
    if r.random() < 0.5 or set(kw) - {"vis"}:
        ret = revuz_minimize(g, **kw)
    else:
        ret = revuz_minimize(g, None, None, None, kw.get("vis"))
    if "leaves" in kw:
        ctx.eq(arg, leaves, "revuz_minimize() altered the set of leaves given")
    ctx.eq(ret, max(want.values()), "height returned")
    try:
        m = gen.read_dfa(g)
    except AssertionError as e:
        ctx.fail(f"the result is inconsistent: {e}")
    ctx.note(result=m)
    ctx.eq(g.initial(), init, "initial state")
    ctx.expect(m.init is not None, "the initial state is gone")
    w = gen.difference(d, m)
    ctx.expect(w is None, "the result does not accept the same words", word=w)
    for x in gen.words(r, sorted(d.alphabet(), key=repr), 4, 5):
        ctx.eq(bool(g.accepts(x)), d.accepts(x), "accepts() of the result", word=x)
    left = sorted(g.vertices())
    ctx.expect(set(left) <= set(vs), "new states appeared")
    res = residuals(m)
    seen = {}
    for q in left:
        key = (res[q], repr(sym.get(q)) if node else None)
        ctx.expect(key not in seen, "two equivalent states remain", q1=seen.get(key), q2=q)
        seen[key] = q
    # expected number of states
    r0 = residuals(d)
    ctx.eq(len(left), len({(r0[q], repr(sym.get(q)) if node else None) for q in vs}), "number of states left")
    for q in left:
        ctx.eq(bool(g.is_final(q)), q in d.finals, "final status of a remaining state changed", q=q)
        if node:
            ctx.eq(g.symbol(q), sym[q], "symbol of a remaining state changed", q=q)
    es = sorted(((g.source(e), g.target(e), g.label(e)) for e in g.edges()), key=repr)
    inn = sorted(((g.source(e), g.target(e), g.label(e)) for q in left for e in g.in_edges(q)), key=repr)
    out = sorted(((g.source(e), g.target(e), g.label(e)) for q in left for e in g.out_edges(q)), key=repr)
    ctx.eq(inn, es, "in-edges of the result")
    ctx.eq(out, es, "out-edges of the result")
    if node:
        for s, t, a in es:
            ctx.eq(a, sym[t], "a transition does not carry the symbol of its target")
    if "vis" in kw:
        log = rec.log
        merged = {}
        for k, x in enumerate(log):
            if x[0] == "merging":
                tail = [y for y in log[k + 1:] if y[0] != "move"][:2]
                ctx.eq(tail, [("remove", x[2]), ("merged", x[1], x[2])], "events of a merge are not merging, moves, remove, merged")
                ctx.expect(x[2] not in merged, "a state is merged twice", q=x[2])
                merged[x[2]] = x[1]
                ctx.eq(r0[x[1]], r0[x[2]], "two states with different languages are merged", q1=x[1], q2=x[2])
            elif x[0] == "move":
                ctx.ev("moved transitions")
                cur = [y for y in log[:k] if y[0] == "merging"][-1]
                ctx.eq((x[1][1], x[2][1]), (cur[2], cur[1]), "a moved transition does not go from the removed to the kept state")
        ctx.eq(sum(x[0] == "merged" for x in log), len(merged), "states_merged() announced")
        ctx.eq(sum(x[0] == "remove" for x in log), len(merged), "remove_vertex() announced")
        ctx.eq(set(merged), set(vs) - set(left), "states announced as merged are not the states removed")
        for a, b in merged.items():
            ctx.expect(b in left, "a state is merged into a state that does not remain", removed=a, into=b)
        ctx.ev("merges", len(merged))
    if len(left) < len(vs):
        ctx.nontrivial(repr(d), node)
    else:
        ctx.ev("already minimal")
    ctx.ev("node automaton" if node else "edge automaton")
    # idempotent
    n = g.num_vertices()
    revuz_minimize(g)
    ctx.eq(g.num_vertices(), n, "minimizing twice removed more states")


def trimmed(ctx, mk):
    for _ in range(40):
        x = mk()
        d = x[0] if isinstance(x, tuple) else x
        t = gen.trim(d)
        if t is not None:
            t2, m = gen.renumber(t)
            if isinstance(x, tuple):
                s = {m[q]: a for q, a in x[1].items() if q in m}
                if not any(b == t2.init for _, b, _ in t2.edges()):
                    s[t2.init] = ctx.rng.choice([None, s[t2.init]])
                return t2, s
            return t2
    ctx.ev("no trimmed automaton drawn")
    return None


def edge(ctx):
    r = ctx.rng
    al = r.choice(gen.ALPHABETS)
    n = r.choice([2, 4, 7, 10])
    d = trimmed(ctx, lambda: gen.dfa(r, n_max=n, alphabet=al, acyclic=True, density=r.choice([0.4, 0.7, 0.9])))
    if d is None:
        return
    ctx.note(dfa=d)
    g, _ = gen.build_dfa(IncidenceAutomaton, d, r, churn=r.random() < 0.4)
    judge(ctx, g, False)
    ctx.sample(dfa=d)


def node(ctx):
    r = ctx.rng
    al = r.choice(gen.ALPHABETS)
    n = r.choice([2, 4, 7, 10])
    x = trimmed(ctx, lambda: gen.node_dfa(r, n_max=n, alphabet=al, acyclic=True))
    if x is None:
        return
    d, sym = x
    ctx.note(dfa=d, symbols=sym)
    g, _ = gen.build_node_dfa(IncidenceNodeAutomaton, d, sym, r)
    judge(ctx, g, True)


def trie_words(r):
    al = r.choice(["a", "ab", "abc"])
    return sorted({gen.random_string(r, r.choice([2, 4, 6]), al) for _ in range(r.randint(1, 14))})


def trie(ctx):
    """Tries, edge- or node-labelled."""
    r = ctx.rng
    ws = trie_words(r)
    ctx.note(words=ws)
    node = r.random() < 0.6
    if node:
        g = IncidenceNodeAutomaton()
        q0 = g.add_vertex()
        g.set_initial(q0)
        order = ws[:]
        r.shuffle(order)
        for w in order:
            q = q0
            for a in w:
                n = g.delta(q, a)
                if n is None:
                    n = g.add_vertex(a)
                    g.add_edge(q, n)
                q = n
            g.set_final(q)
    else:
        g = IncidenceAutomaton()
        g.set_initial(g.add_vertex())
        order = ws[:]
        r.shuffle(order)
        for w in order:
            automaton_insert_string(g, w)
    judge(ctx, g, node)
    got = sorted(w for n in range(7) for w in ("".join(t) for t in gen.all_words("abc", n) if len(t) == n) if g.accepts(w)) if max(map(len, ws)) <= 4 and r.random() < 0.1 else None
    if got is not None:
        ctx.eq(got, ws, "words accepted after minimization")
    for w in ws:
        ctx.expect(g.accepts(w), "an inserted word is no longer accepted", word=w)


def unfold(ctx):
    """A compact DAG whose states are cloned per in-transition at random: minimization must fold it back."""
    r = ctx.rng
    b = trimmed(ctx, lambda: gen.dfa(r, n_max=r.choice([4, 6, 8]), alphabet=r.choice([["a", "b"], ["a", "b", "c"]]), acyclic=True, density=0.9))
    if b is None:
        return
    tr, finals = {}, set()
    count = [0]
    made = {}

    def clone(q):
        if q in made and (r.random() < 0.4 or count[0] > 60):
            return r.choice(made[q])
        k = count[0]
        count[0] += 1
        made.setdefault(q, []).append(k)
        if q in b.finals:
            finals.add(k)
        tr[k] = {a: clone(s) for a, s in b.tr.get(q, {}).items()}
        return k

    root = clone(b.init)
    d = gen.Dfa(count[0], root, finals, tr)
    ctx.note(dfa=d)
    g, _ = gen.build_dfa(IncidenceAutomaton, d, r)
    judge(ctx, g, False)
    ctx.expect(g.num_vertices() <= b.n, "more states than the compact automaton", compact=b)


def heights(ctx):
    """Heights on acyclic graphs that are not automata (parallel edges included)."""
    r = ctx.rng
    n, E = gen.digraph(r, n_max=9, kind="dag")
    E += [r.choice(E) for _ in range(r.randint(0, 3))] if E else []
    ctx.note(n=n, edges=E)
    g, ids, _ = gen.build(IncidenceGraph, n, E, r, churn=r.random() < 0.5)
    back = {v: k for k, v in enumerate(ids)}
    memo = {}

    def lp(u):
        if u not in memo:
            memo[u] = max((1 + lp(v) for a, v in E if a == u), default=0)
        return memo[u]

    hm = defaultdict(int)
    h = revuz_height(g, make_assoc_property_map(hm))
    ctx.eq({back[v]: hm[v] for v in g.vertices()}, {k: lp(k) for k in range(n)}, "revuz_height(): heights")
    if n:
        ctx.eq(h, max(lp(k) for k in range(n)), "revuz_height(): maximum")
    ctx.ev("heights compared", n)


def deep(ctx):
    """Two long chains sharing their words' suffixes."""
    r = ctx.rng
    n = r.randint(300, 700)
    tr = {0: {"x": 1, "y": n + 1}}
    for k in range(1, n):
        tr[k] = {"a": k + 1}
        tr[n + k] = {"a": n + k + 1}
    d = gen.Dfa(2 * n + 1, 0, {n, 2 * n}, tr)
    g, _ = gen.build_dfa(IncidenceAutomaton, d, r)
    revuz_minimize(g)
    ctx.eq(g.num_vertices(), n + 1, "states left of two equal chains")
    ctx.expect(g.accepts("x" + "a" * (n - 1)) and g.accepts("y" + "a" * (n - 1)) and not g.accepts("x" + "a" * (n - 2)), "words after minimization")


def big(ctx):
    """Many leaves, wide nodes, many words: acyclic automata with large classes to merge."""
    r = ctx.rng
    k = ctx.i % 6
    tr, finals = {}, set()
    sym = None
    if k == 0:  # a root with many children, each followed by one of a few suffix trees
        m = r.choice([40, 150, 280])
        al = gen.wide_alphabet(r, m)
        n = 1
        for a in al:
            tr.setdefault(0, {})[a] = n
            q = n
            n += 1
            for b in "xy"[:r.randint(0, 2)]:
                tr.setdefault(q, {})[b] = n
                finals.add(n)
                n += 1
            if r.random() < 0.4 or q not in tr:
                finals.add(q)
    elif k == 1:  # complete trees
        h = r.choice([5, 6, 7])
        n = 2 ** (h + 1) - 1
        tr = {q: {"a": 2 * q + 1, "b": 2 * q + 2} for q in range(2 ** h - 1)}
        finals = set(range(2 ** h - 1, n)) | ({q for q in range(n) if (q + 1).bit_length() == 3} if r.random() < 0.5 else set())
    elif k >= 4:  # many states with many transitions, few of which make the difference
        m, wd = r.choice([(30, 30), (120, 20), (40, 120), (300, 5)])
        al = gen.wide_alphabet(r, m + wd)
        n, sym, bottoms, copies = 1, {0: None}, [], r.choice([1, 2, 3])
        r.shuffle(al)
        for a in al[:wd]:
            bottoms.append(list(range(n, n + copies)))
            for q in bottoms[-1]:
                sym[q] = a
            fin = r.random() < 0.9
            finals |= set(bottoms[-1])
            if not fin:  # one of the copies goes further
                q = r.choice(bottoms[-1])
                tr[q] = {a: n + copies}
                finals.add(n + copies)
                sym[n + copies] = a
                n += 1
            n += copies
        profiles = [[j for j in range(wd) if r.random() < 0.8] for _ in range(2)]
        same = r.random() < 0.5
        for a in al[wd:]:
            p = set(r.choice(profiles))
            if r.random() < 0.6:
                p ^= {r.randrange(wd)}
            q, n = n, n + 1
            sym[q] = al[wd] if same else a
            js = sorted(p) or [0]
            r.shuffle(js)
            tr[q] = {al[j]: r.choice(bottoms[j]) for j in js}
            if k == 4:
                tr.setdefault(0, {})[a] = q
            else:  # below states which have a symbol each
                sym[n] = a
                tr.setdefault(0, {})[a] = n
                tr[n] = {sym[q]: q}
                n += 1
        if k == 4:
            for q in sym:
                if q in tr.get(0, {}).values():
                    sym[q] = next(a for a, t in tr[0].items() if t == q)
    else:  # a dictionary
        ws = {gen.random_string(r, r.choice([3, 6, 12]), r.choice(["ab", "abcd"])) for _ in range(r.choice([60, 150, 300]))}
        n, node = 1, {"": 0}
        for w in sorted(ws):
            for j in range(1, len(w) + 1):
                if w[:j] not in node:
                    node[w[:j]] = n
                    tr.setdefault(node[w[:j - 1]], {})[w[j - 1]] = n
                    n += 1
            finals.add(node[w])
    d = gen.Dfa(n, 0, finals, tr)
    if k >= 4:
        d = gen.trim(d)
        d, names = gen.renumber(d)
        sym = {names[q]: a for q, a in sym.items() if q in names}
        ctx.ev("many transitions, few of which differ")
    ctx.note(dfa=d)
    if k >= 4 and r.random() < 0.6:
        g, _ = gen.build_node_dfa(IncidenceNodeAutomaton, d, sym, r)
        judge(ctx, g, True)
    else:
        g, _ = gen.build_dfa(IncidenceAutomaton, d, r)
        judge(ctx, g, False)
    ctx.ev("many states or symbols")


FAMILIES = [
    Fam("big", big, 240, 4800),
    Fam("edge", edge, 12000, 240000),
    Fam("node", node, 12000, 240000),
    Fam("trie", trie, 8000, 160000),
    Fam("unfold", unfold, 4000, 80000),
    Fam("heights", heights, 800, 10000),
    Fam("deep", deep, 8, 40),
]
