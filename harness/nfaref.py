"""Reference NFA: a set of transitions, searched path by path."""
from . import gen


class RefNfa:
    def __init__(self, n, inits, finals, tr, eps):
        self.n, self.inits, self.finals, self.tr, self.eps = n, set(inits), set(finals), set(tr), eps

    def __repr__(self):
        return f"Nfa(inits={sorted(self.inits)}, finals={sorted(self.finals)}, eps={self.eps!r}, tr={sorted(self.tr, key=repr)})"

    def close(self, qs):
        return gen.closure(None, [(q, s) for q, s, a in self.tr if a == self.eps and type(a) is type(self.eps)], qs)

    def step(self, qs, a):
        c = self.close(qs)
        return self.close({s for q, s, b in self.tr if q in c and b == a})

    def run(self, w):
        qs = self.close(self.inits)
        for a in w:
            qs = self.step(qs, a)
        return set(qs)

    def accepts(self, w):
        return bool(self.run(w) & self.finals)

    def alphabet(self):
        return {a for _, _, a in self.tr if a != self.eps}

    def has_eps_cycle(self):
        E = [(q, s) for q, s, a in self.tr if a == self.eps]
        return any(q in gen.closure(None, E, [s]) for q, s in E)


def random_nfa(r, al, eps, n_max=6, n_min=1, eps_rate=None):
    n = r.randint(n_min, n_max)
    er = r.choice([0, 0.15, 0.4, 0.7]) if eps_rate is None else eps_rate
    tr = set()
    for _ in range(r.randint(0, 3 * n)):
        tr.add((r.randrange(n), r.randrange(n), eps if r.random() < er else r.choice(al)))
    m = r.random()
    inits = {0} if m < 0.4 else {r.randrange(n)} if m < 0.6 else {q for q in range(n) if r.random() < 0.5}
    fin = {q for q in range(n) if r.random() < r.choice([0.2, 0.5])} if r.random() < 0.9 else set()
    return RefNfa(n, inits, fin, tr, eps)


def build_nfa(ref, Nfa, r=None):
    from pybgl.nfa import EPSILON

    g = Nfa(ref.n) if ref.eps == EPSILON and type(ref.eps) is str else Nfa(ref.n, epsilon=ref.eps)
    g.set_initials(set(ref.inits))
    ts = sorted(ref.tr, key=repr)
    if r:
        r.shuffle(ts)
    for t in ts:
        g.add_edge(t[0], t[1], gen.fresh(t[2]))
    for q in ref.finals:
        g.set_final(q)
    return g


def read_nfa(g):
    """Reads a pybgl Nfa through its public interface."""
    vs = list(g.vertices())
    tr = {(g.source(e), g.target(e), g.label(e)) for e in g.edges()}
    return RefNfa(len(vs), set(g.initials), {q for q in vs if g.is_final(q)}, tr, g.epsilon)


def difference_nfa_dfa(n, d, alphabet, limit=20000):
    """None or a shortest word accepted by exactly one of the RefNfa and the Dfa; exact unless `limit` pairs are met."""
    by = {}
    for q, s, a in n.tr:
        by.setdefault(q, []).append((s, a))
    eps = {}
    for q, s, a in n.tr:
        if a == n.eps:
            eps.setdefault(q, []).append(s)

    def close(qs):
        seen, todo = set(qs), list(qs)
        while todo:
            for s in eps.get(todo.pop(), ()):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return frozenset(seen)

    start = (close(n.inits), d.init)
    seen = {start: None}
    todo = [start]
    for p in todo:
        qs, q = p
        if bool(qs & n.finals) != (q is not None and q in d.finals):
            w = []
            while seen[p] is not None:
                p, a = seen[p]
                w.append(a)
            return list(reversed(w))
        if len(seen) > limit:
            raise RuntimeError("pair budget")
        nxt = {}
        for x in qs:
            for s, a in by.get(x, ()):
                if a != n.eps:
                    nxt.setdefault(a, set()).add(s)
        for a in set(alphabet) | set(nxt) | set(d.tr.get(q, ())):
            t = (close(nxt.get(a, ())), d.delta(q, a))
            if t not in seen:
                seen[t] = (p, a)
                todo.append(t)
    return None
