"""Isomorphism of small labelled directed multigraphs (colour refinement + backtracking)."""
from collections import Counter, defaultdict


def isomorphism(v1, e1, v2, e2, c1=None, c2=None, limit=200000):
    """v: vertices; e: list of (u, v, label); c: {vertex: colour}.

    Returns a bijection {v1: v2} or None.  Multi-edges are compared with multiplicity."""
    v1, v2 = list(v1), list(v2)
    if len(v1) != len(v2) or len(e1) != len(e2):
        return None
    m1, m2 = Counter(e1), Counter(e2)

    def refine(vs, m, c):
        col = {v: ("c", repr(c[v]) if c else None) for v in vs}
        out, inn = defaultdict(list), defaultdict(list)
        for (a, b, l), k in m.items():
            out[a].append((b, repr(l), k))
            inn[b].append((a, repr(l), k))
        for _ in range(len(vs) + 1):
            new = {
                v: hash((col[v],
                         tuple(sorted((hash(col[b]), l, k) for b, l, k in out[v])),
                         tuple(sorted((hash(col[a]), l, k) for a, l, k in inn[v]))))
                for v in vs
            }
            if len(set(new.values())) == len(set(col.values())):
                return new
            col = new
        return col

    # same number of rounds on both sides: refine the disjoint union
    vs = [(1, v) for v in v1] + [(2, v) for v in v2]
    m = Counter()
    for (a, b, l), k in m1.items():
        m[((1, a), (1, b), l)] += k
    for (a, b, l), k in m2.items():
        m[((2, a), (2, b), l)] += k
    col = {}
    col.update({(1, v): c1[v] if c1 else None for v in v1})
    col.update({(2, v): c2[v] if c2 else None for v in v2})
    col = refine(vs, m, col)
    k1 = Counter(col[(1, v)] for v in v1)
    k2 = Counter(col[(2, v)] for v in v2)
    if k1 != k2:
        return None
    pairs1, pairs2 = defaultdict(Counter), defaultdict(Counter)
    for (a, b, l), k in m1.items():
        pairs1[(a, b)][repr(l)] += k
    for (a, b, l), k in m2.items():
        pairs2[(a, b)][repr(l)] += k
    order = sorted(v1, key=lambda v: (k1[col[(1, v)]], repr(v)))
    cand = defaultdict(list)
    for v in v2:
        cand[col[(2, v)]].append(v)
    f, used = {}, set()
    budget = [limit]

    def ok(x, y):
        if pairs1.get((x, x), None) != pairs2.get((y, y), None):
            return False
        for a, b in f.items():
            if pairs1.get((x, a)) != pairs2.get((y, b)) or pairs1.get((a, x)) != pairs2.get((b, y)):
                return False
        return True

    def go(i):
        if i == len(order):
            return True
        budget[0] -= 1
        if budget[0] < 0:
            raise RuntimeError("isomorphism budget")
        x = order[i]
        for y in cand[col[(1, x)]]:
            if y not in used and ok(x, y):
                f[x] = y
                used.add(y)
                if go(i + 1):
                    return True
                del f[x]
                used.discard(y)
        return False

    return dict(f) if go(0) else None
