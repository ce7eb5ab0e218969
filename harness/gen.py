"""Generators: abstract digraphs (n, edges) and abstract deterministic / nondeterministic automata."""
import itertools

from pybgl.graph import EdgeDescriptor


# ---------------------------------------------------------------- digraphs
def all_digraphs(n_max, loops=True):
    """Every digraph (simple, loops optional) with at most n_max vertices, as (n, edges)."""
    for n in range(n_max + 1):
        pairs = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
        for mask in range(1 << len(pairs)):
            yield n, [pairs[k] for k in range(len(pairs)) if mask >> k & 1]


def nth_digraph(i, n_max=3, loops=True):
    """i-th element of all_digraphs without listing them."""
    for n in range(n_max + 1):
        k = n * n if loops else n * (n - 1)
        if i < 1 << k:
            pairs = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
            return n, [pairs[j] for j in range(k) if i >> j & 1]
        i -= 1 << k
    return None


def num_digraphs(n_max, loops=True):
    return sum(1 << (n * n if loops else n * (n - 1)) for n in range(n_max + 1))


KINDS = ["sparse", "dense", "dag", "tree", "cycles", "multi", "chain", "components", "layers", "complete"]


def digraph(rng, n_max=9, kind=None, loops=True, n_min=0):
    """A random digraph as (n, edges), edges possibly repeated and with loops."""
    kind = kind or rng.choice(KINDS)
    n = rng.randint(n_min, n_max)
    if n == 0:
        return 0, []
    V = list(range(n))
    perm = V[:]
    rng.shuffle(perm)
    E = []
    if kind == "sparse":
        E = [(rng.choice(V), rng.choice(V)) for _ in range(rng.randint(0, 2 * n))]
    elif kind == "dense":
        p = rng.uniform(0.3, 0.8)
        E = [(u, v) for u in V for v in V if rng.random() < p]
    elif kind == "dag":
        p = rng.uniform(0.1, 0.6)
        E = [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
    elif kind == "tree":
        E = [(perm[rng.randrange(i)], perm[i]) for i in range(1, n)]
    elif kind == "cycles":
        i = 0
        while i < n:
            k = rng.randint(1, 4)
            c = perm[i:i + k]
            E += [(c[j], c[(j + 1) % len(c)]) for j in range(len(c))]
            i += k
        E += [(rng.choice(V), rng.choice(V)) for _ in range(rng.randint(0, n))]
    elif kind == "multi":
        for _ in range(rng.randint(0, n)):
            E += [(rng.choice(V), rng.choice(V))] * rng.randint(1, 3)
    elif kind == "chain":
        E = [(perm[i], perm[i + 1]) for i in range(n - 1)]
        for _ in range(rng.randint(0, 3)):
            E.append((rng.choice(V), rng.choice(V)))
    elif kind == "components":
        k = rng.randint(1, 3)
        E = [(u, v) for u in V for v in V if u % k == v % k and rng.random() < 0.4]
    elif kind == "layers":
        w = rng.randint(1, 3)
        lay = [perm[i:i + w] for i in range(0, n, w)]
        for a, b in zip(lay, lay[1:]):
            E += [(u, v) for u in a for v in b if rng.random() < 0.8]
    elif kind == "complete":
        E = [(u, v) for u in V for v in V]
    if not loops:
        E = [(u, v) for u, v in E if u != v]
    rng.shuffle(E)
    return n, E


def closure(n_or_vs, E, sources):
    """Vertices reachable from sources."""
    adj = {}
    for u, v in E:
        adj.setdefault(u, []).append(v)
    seen = set(sources)
    todo = list(seen)
    while todo:
        u = todo.pop()
        for v in adj.get(u, ()):
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return seen


def fresh(x):
    """An object equal to x that is another object when possible (so that identity does not stand for equality)."""
    if type(x) is str:
        return "".join(list(x))
    if type(x) is tuple:
        return tuple([fresh(y) for y in x])
    if type(x) is int:
        return int(str(x))
    if type(x) is EdgeDescriptor:
        return EdgeDescriptor(fresh(x.source), fresh(x.target), fresh(x.distinguisher))
    return x


def far(rng, g, rate=0.04):
    """Now and then, uses up some hundreds of identifiers, so that those which follow are large."""
    if rng is not None and rng.random() < rate:
        for u in [g.add_vertex() for _ in range(rng.choice([257, 260, 300, 1030]))]:
            g.remove_vertex(u)
        return True
    return False


def emptied(rng, g):
    """Now and then, an automaton which held something and holds nothing any more."""
    if rng.random() < 0.4:
        us = [g.add_vertex() for _ in range(rng.randint(1, 3))]
        g.set_initial(rng.choice(us))
        g.set_final(rng.choice(us))
        if rng.random() < 0.5:
            g.add_edge(us[0], us[-1], "a")
        rng.shuffle(us)
        for u in us:
            g.remove_vertex(u)
    return g


def build(G, n, E, rng=None, churn=False):
    """Builds the digraph in a graph of class G; returns (g, vertex ids, edge descriptors by position).

    With churn, extra vertices and edges are added and removed meanwhile, so that
    identifiers have holes and parallel edges have been removed.
    """
    g = G()
    if churn:
        far(rng, g)
    ids = []
    extra = []
    for _ in range(n):
        if churn and rng.random() < 0.4:
            extra.append(g.add_vertex())
        ids.append(fresh(g.add_vertex()))
    if churn and rng.random() < 0.5:
        extra.append(g.add_vertex())
    es = []
    tmp = []
    for u, v in E:
        if churn and rng.random() < 0.3:
            tmp.append(g.add_edge(ids[u], ids[v])[0])
        if churn and extra and rng.random() < 0.3:
            g.add_edge(ids[u], rng.choice(extra))
            g.add_edge(rng.choice(extra), ids[v])
        es.append(g.add_edge(ids[u], ids[v])[0])
    if churn:
        rng.shuffle(extra)
        for x in extra:
            g.remove_vertex(x)
        for e in tmp:
            g.remove_edge(e)
    return g, ids, es


# ---------------------------------------------------------------- automata
class Dfa:
    """Abstract (partial) deterministic automaton."""

    def __init__(self, n, init, finals, tr):
        self.n = n
        self.init = init
        self.finals = set(finals)
        self.tr = tr  # {q: {a: r}}

    def delta(self, q, a):
        return None if q is None else self.tr.get(q, {}).get(a)

    def run(self, w):
        q = self.init
        for a in w:
            q = self.delta(q, a)
            if q is None:
                return None
        return q

    def accepts(self, w):
        q = self.run(w)
        return q is not None and q in self.finals

    def alphabet(self):
        return {a for d in self.tr.values() for a in d}

    def edges(self):
        return [(q, r, a) for q, d in self.tr.items() for a, r in d.items()]

    def reachable(self):
        return closure(None, [(q, r) for q, r, _ in self.edges()], [self.init]) if self.init is not None else set()

    def coreachable(self):
        return closure(None, [(r, q) for q, r, _ in self.edges()], self.finals)

    def __repr__(self):
        return f"Dfa(init={self.init}, finals={sorted(self.finals, key=repr)}, edges={sorted(self.edges(), key=repr)})"


ALPHABETS = [
    ["a"],
    ["a", "b"],
    ["a", "b", "c"],
    ["é", "雪", "\U0001f600"],
    [0, 1],
    [("a", 1), ("b", 2), None.__class__],
    ["", "a"],
    ["ab", "b", "a"],
    [" ", "\n", "\\"],
    [False, "0", 7],
    [1000, -1, ("x", 1000)],
]
CHAR_ALPHABETS = [a for a in ALPHABETS if all(isinstance(x, str) and len(x) == 1 for x in a)]


def dfa(rng, n_max=6, alphabet=None, acyclic=False, complete=False, density=None, finals=None, n_min=1):
    alphabet = alphabet or rng.choice(ALPHABETS)
    n = rng.randint(n_min, n_max)
    density = 1.0 if complete else (rng.choice([0.3, 0.6, 0.9, 1.0]) if density is None else density)
    order = list(range(n))
    rng.shuffle(order)
    tr = {}
    for i, q in enumerate(order):
        for a in alphabet:
            if rng.random() < density:
                pool = order[i + 1:] if acyclic else order
                if pool:
                    tr.setdefault(q, {})[a] = rng.choice(pool)
    init = order[0] if acyclic or rng.random() < 0.4 else rng.randrange(n)
    if finals is None:
        m = rng.random()
        finals = set() if m < 0.08 else set(range(n)) if m < 0.16 else {q for q in range(n) if rng.random() < rng.choice([0.2, 0.5])}
    return Dfa(n, init, finals, tr)


def node_dfa(rng, n_max=6, alphabet=None, acyclic=False, density=None):
    """A deterministic automaton whose transitions into r all carry the symbol of r.

    Returned as (Dfa, symbols) with symbols[r] the symbol of r (None for states never entered
    is avoided for all but possibly the initial one)."""
    alphabet = alphabet or rng.choice([a for a in ALPHABETS if len(a) > 1 or True])
    n = rng.randint(1, n_max)
    order = list(range(n))
    rng.shuffle(order)
    sym = {q: rng.choice(alphabet) for q in range(n)}
    density = rng.choice([0.3, 0.6, 0.9]) if density is None else density
    tr = {}
    for i, q in enumerate(order):
        pool = order[i + 1:] if acyclic else order[:]
        rng.shuffle(pool)
        for r in pool:
            if rng.random() < density and sym[r] not in tr.get(q, {}):
                tr.setdefault(q, {})[sym[r]] = r
    init = order[0] if acyclic or rng.random() < 0.5 else rng.randrange(n)
    m = rng.random()
    finals = set() if m < 0.08 else set(range(n)) if m < 0.16 else {q for q in range(n) if rng.random() < 0.4}
    if not any(r == init for _, r, _ in Dfa(n, init, finals, tr).edges()):
        sym[init] = None
    return Dfa(n, init, finals, tr), sym


def wide_alphabet(rng, k):
    """k symbols, some of several characters, some numbers, some tuples."""
    kind = rng.randrange(4)
    if kind == 0:
        return [f"s{j}" for j in range(k)]
    if kind == 1:
        return list(range(k))
    if kind == 2:
        return [("t", j) for j in range(k)]
    return [chr(0x4e00 + j) for j in range(k)]


def big_dfa(rng, kind=None, alphabet=None, scale=1.0):
    """Deterministic automata larger or wider than those of `dfa`."""
    kind = kind or rng.choice(["chain", "wide", "random", "tree", "ring", "hub"])
    tr = {}
    if kind == "wide":
        n = rng.randint(2, 8)
        al = alphabet or wide_alphabet(rng, rng.choice([40, 130, 300]))
        for q in range(n):
            for a in al:
                if rng.random() < 0.8:
                    tr.setdefault(q, {})[a] = rng.randrange(n)
    elif kind == "hub":
        n = max(4, int(rng.choice([60, 270]) * scale))
        al = alphabet or wide_alphabet(rng, n)
        tr[0] = {a: q for q, a in zip(range(1, n), al)}
        for q in range(1, n):
            if rng.random() < 0.7:
                tr[q] = {rng.choice(al): 0}
    else:
        n = max(4, int(rng.choice({"chain": [70, 150, 400, 1100], "ring": [70, 150, 400], "random": [50, 90, 160], "tree": [70, 300]}[kind]) * scale))
        al = alphabet or rng.choice([["a"], ["a", "b"], ["a", "b", "c"], [0, 1000], ["ab", "b"], [("x", 1), ("y", 2)]])
        if kind == "tree":
            for q in range(1, n):
                p = rng.randrange(max(0, q - rng.choice([2, 40])), q)
                free = [a for a in al if a not in tr.get(p, {})]
                if free:
                    tr.setdefault(p, {})[rng.choice(free)] = q
        elif kind == "random":
            for q in range(n):
                for a in al:
                    if rng.random() < 0.9:
                        tr.setdefault(q, {})[a] = rng.randrange(n)
        else:
            for q in range(n - (kind == "chain")):
                tr.setdefault(q, {})[rng.choice(al)] = (q + 1) % n
            for _ in range(rng.choice([0, 0, 3])):
                q, a = rng.randrange(n), rng.choice(al)
                tr.setdefault(q, {}).setdefault(a, rng.randrange(n))
    m = rng.random()
    finals = {n - 1} if m < 0.3 else {q for q in range(n) if rng.random() < rng.choice([0.1, 0.5])} if m < 0.9 else set(range(n))
    return Dfa(n, 0, finals, tr)


def walk(rng, d, max_len):
    """A word along the transitions of d, from its initial state."""
    q, w = d.init, []
    while q is not None and d.tr.get(q) and len(w) < max_len:
        a = rng.choice(list(d.tr[q]))
        w.append(fresh(a))
        q = d.tr[q][a]
    return tuple(w)


def big_digraph(rng, kind=None, scale=1.0, loops=True):
    """(n, edges) with more vertices, higher degrees or more parallel edges than those of `digraph`."""
    kind = kind or rng.choice(["chain", "ring", "out star", "in star", "sparse", "grid", "comb", "parallel", "dag", "forest", "dense", "blocks", "lens"])
    n = max(6, int(rng.choice([40, 90, 270, 400]) * scale))
    E = []
    if kind in ("chain", "ring"):
        E = [(k, k + 1) for k in range(n - 1)] + ([(n - 1, 0)] if kind == "ring" else [])
        E += [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([0, 4]))]
    elif kind == "out star":
        E = [(0, k) for k in range(1, n)] + [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([0, 9]))]
    elif kind == "in star":
        E = [(k, 0) for k in range(1, n)] + [(0, rng.randrange(n)) for _ in range(rng.choice([0, 3]))]
    elif kind == "sparse":
        E = [(rng.randrange(n), rng.randrange(n)) for _ in range(int(n * rng.choice([0.7, 1.2, 3])))]
    elif kind == "grid":
        w = max(2, int(n ** 0.5))
        n = w * w
        E = [(i * w + j, i * w + j + 1) for i in range(w) for j in range(w - 1)] + [(i * w + j, (i + 1) * w + j) for i in range(w - 1) for j in range(w)]
    elif kind == "comb":
        h = n // 2
        E = [(k, k + 1) for k in range(h - 1)] + [(k, h + k) for k in range(n - h) if k < h]
    elif kind == "parallel":
        n = rng.randint(2, 5)
        E = [(rng.randrange(n), rng.randrange(n)) for _ in range(6)]
        E += [E[0]] * int(rng.choice([20, 70, 260]) * max(scale, 0.3))
    elif kind == "dag":
        E = [tuple(sorted(rng.sample(range(n), 2))) for _ in range(2 * n)]
    elif kind == "forest":
        E = [(rng.randrange(max(0, k - 30), k), k) for k in range(1, n) if rng.random() < 0.95]
    elif kind == "dense":
        n = max(5, int(30 * scale))
        E = [(u, v) for u in range(n) for v in range(n) if rng.random() < 0.7]
    elif kind == "blocks":
        k = 0
        while k < n:
            b = list(range(k, min(n, k + rng.choice([1, 2, 5, 40]))))
            E += [(b[j], b[(j + 1) % len(b)]) for j in range(len(b)) if len(b) > 1]
            if k:
                E.append((rng.randrange(k), rng.choice(b)))
            k += len(b)
    elif kind == "lens":
        n, E = lens(rng, scale)
    if not loops:
        E = [(u, v) for u, v in E if u != v]
    lab = list(range(n))
    rng.shuffle(lab)
    E = [(lab[u], lab[v]) for u, v in E]
    rng.shuffle(E)
    return n, E


def lens(rng, scale=1.0):
    """Vertex 0 leads to many vertices, which lead (in as many steps) to the last one."""
    k = max(4, int(rng.choice([20, 80, 150]) * scale))
    layers = rng.choice([1, 1, 2, 3])
    n = 2 + k * layers
    E = []
    for j in range(layers):
        for x in range(k):
            v = 1 + j * k + x
            E.append((v - k if j else 0, v))
            if j and rng.random() < 0.2:
                E.append((1 + (j - 1) * k + rng.randrange(k), v))
            if j == layers - 1:
                E.append((v, n - 1))
    return n, E


def trim(d):
    """The reachable and co-reachable part (states keep their names); None if the language is empty."""
    keep = d.reachable() & d.coreachable()
    if d.init not in keep:
        return None
    tr = {q: {a: r for a, r in t.items() if r in keep} for q, t in d.tr.items() if q in keep}
    return Dfa(len(keep), d.init, d.finals & keep, tr)


def renumber(d):
    """Same automaton on 0..n-1 with the reachable states first."""
    qs = sorted({d.init} | set(d.finals) | {x for q, r, _ in d.edges() for x in (q, r)} | set(d.tr))
    m = {q: i for i, q in enumerate(qs)}
    return Dfa(len(qs), m[d.init], {m[q] for q in d.finals}, {m[q]: {a: m[r] for a, r in t.items()} for q, t in d.tr.items()}), m


def build_dfa(A, d, rng=None, churn=False):
    """Builds an edge-labelled automaton of class A; returns (g, {abstract state: id})."""
    g = A()
    far(rng, g)
    ids, extra = {}, []
    qs = list(range(d.n))
    if rng:
        rng.shuffle(qs)
    for q in qs:
        if churn and rng.random() < 0.3:
            extra.append(g.add_vertex())
        ids[q] = fresh(g.add_vertex())
    es = d.edges()
    if rng:
        rng.shuffle(es)
    for q, r, a in es:
        g.add_edge(ids[q], ids[r], fresh(a))
    if churn:
        for x in extra:
            g.add_edge(x, ids[rng.choice(qs)], "zz")
            g.remove_vertex(x)
    for q in d.finals:
        g.set_final(ids[q])
    g.set_initial(ids[d.init])
    return g, ids


def build_node_dfa(A, d, sym, rng=None):
    g = A()
    far(rng, g)
    ids = {}
    qs = list(range(d.n))
    if rng:
        rng.shuffle(qs)
    for q in qs:
        ids[q] = fresh(g.add_vertex(fresh(sym[q])))
    es = d.edges()
    if rng:
        rng.shuffle(es)
    for q, r, a in es:
        g.add_edge(ids[q], ids[r])
    for q in d.finals:
        g.set_final(ids[q])
    g.set_initial(ids[d.init])
    return g, ids


def read_dfa(g):
    """Reads a pybgl deterministic automaton through its public interface into a Dfa.

    Fails (AssertionError) on two transitions of a state for one symbol."""
    vs = list(g.vertices())
    vset = set(vs)
    assert len(vs) == len(vset), f"vertices listed twice: {vs}"
    tr = {}
    for e in g.edges():
        q, r, a = g.source(e), g.target(e), g.label(e)
        assert q in vset and r in vset, f"edge {q}->{r} on unknown vertices"
        t = tr.setdefault(q, {})
        assert a not in t, f"two transitions from {q} by {a!r}"
        t[a] = r
    q0 = g.initial()
    return Dfa(len(vs), q0 if q0 in vset else None, {q for q in vs if g.is_final(q)}, tr)


def snapshot(g):
    """Everything observable of a deterministic automaton, for purity checks."""
    vs = sorted(g.vertices())
    es = sorted(((g.source(e), g.target(e), g.label(e)) for e in g.edges()), key=repr)
    return (vs, es, g.initial(), sorted(q for q in vs if g.is_final(q)))


def difference(d1, d2, limit=200000):
    """None if two Dfa accept the same words, else a shortest word accepted by exactly one."""
    start = (d1.init, d2.init)
    seen = {start: None}
    todo = [start]
    k = 0
    while k < len(todo):
        p = todo[k]
        k += 1
        q1, q2 = p
        if (q1 is not None and q1 in d1.finals) != (q2 is not None and q2 in d2.finals):
            w = []
            while seen[p] is not None:
                p, a = seen[p]
                w.append(a)
            return list(reversed(w))
        for a in set(d1.tr.get(q1, ())) | set(d2.tr.get(q2, ())):
            n = (d1.delta(q1, a), d2.delta(q2, a))
            if n not in seen:
                seen[n] = (p, a)
                todo.append(n)
    return None


def minimal_classes(d, states=None, complete=True):
    """Number of residual languages of the states (Moore refinement); the dead one counts when
    `complete` and it is the residual of some state, or of a missing transition."""
    alphabet = sorted(d.alphabet(), key=repr)
    states = set(states if states is not None else range(d.n))
    DEAD = "dead"
    allq = states | {DEAD}
    cls = {q: (q != DEAD and q in d.finals) for q in allq}
    while True:
        sig = {q: (cls[q],) + tuple(cls[d.delta(q, a) if q != DEAD and d.delta(q, a) is not None else DEAD] for a in alphabet) for q in allq}
        names = {}
        new = {q: names.setdefault(sig[q], len(names)) for q in allq}
        if len(names) == len(set(cls.values())):
            return new, DEAD
        cls = new


def words(rng, alphabet, k, max_len=8):
    alphabet = list(alphabet)
    out = [()]
    for _ in range(k):
        out.append(tuple(fresh(rng.choice(alphabet)) for _ in range(rng.randint(0, max_len))) if alphabet else ())
    return out


def all_words(alphabet, max_len):
    for n in range(max_len + 1):
        yield from itertools.product(alphabet, repeat=n)


def random_string(rng, n_max=8, alphabet=None):
    alphabet = alphabet or rng.choice(["ab", "abc", "a", "aé雪\U0001f600", "a b\n\\\"'", "01", "aAbB"])
    return "".join(rng.choice(alphabet) for _ in range(rng.randint(0, n_max)))
