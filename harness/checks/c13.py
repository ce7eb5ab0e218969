"""C13: tries and suffix tries in lock-step with a set of words."""
from pybgl.digital_sequence import DigitalSequence
from pybgl.suffix_trie import factors, make_suffix_trie, slices
from pybgl.property_map import make_func_property_map
from pybgl.trie import Trie, trie_deterministic_fusion

from .. import gen
from ..core import Fam

ANCHORS = ["trie.py", "suffix_trie.py", "automaton.py", "parallel_breadth_first_search.py"]
RULE = (
    "A case is a sequence of insertions of words and tries, checked after each of them against the set of inserted words (states = distinct prefixes, "
    "shape, acceptance), or a string and length bound whose slices, factors and suffix trie are compared with its substrings. "
    "Non-trivial: two inserted words share a prefix / the string has a repeated factor; distinct by case."
)
REQUIRED = ["words inserted", "tries inserted", "empty word inserted", "reinsertions", "shared prefixes", "suffix tries", "max_len 0", "max_len beyond", "sequences inserted", "large tries", "cleared", "other root", "emptied trie"]
ASSUMPTIONS = ["words are strings", "a suffix trie given by the caller holds all its states final, as the one made by default"]


def prefixes(ws):
    return {w[:k] for w in ws for k in range(len(w) + 1)}


def check_trie(ctx, g, ws, what="trie"):
    """g accepts exactly ws and has one state per prefix."""
    P = prefixes(ws) | {""}
    d = gen.read_dfa(g)
    ctx.eq(d.n, len(P), f"{what}: number of states")
    ctx.eq(g.num_vertices(), len(P), f"{what}: num_vertices()")
    ctx.eq(g.num_edges(), len(P) - 1, f"{what}: num_edges()")
    es = d.edges()
    ctx.eq(len(es), len(P) - 1, f"{what}: transitions listed")
    ctx.eq(len({r for _, r, _ in es}), len(es), f"{what}: a state has two parents")
    seen, todo = {d.init: ""}, [d.init]
    for q in todo:
        for a, r in d.tr.get(q, {}).items():
            ctx.expect(r not in seen, f"{what}: not a tree")
            seen[r] = seen[q] + a
            todo.append(r)
    ctx.eq(set(seen.values()), P, f"{what}: prefixes")
    ctx.eq({seen[q] for q in d.finals}, set(ws), f"{what}: words accepted")
    for w in P:
        ctx.eq(bool(g.accepts(w)), w in ws, f"{what}: accepts()", word=w)
        ctx.expect(not g.accepts(w + "\0"), f"{what}: accepts a longer word", word=w)


def word(r, al, pool):
    if pool and r.random() < 0.4:
        w = r.choice(pool)
        k = r.randint(0, len(w))
        return w[:k] + (gen.random_string(r, 2, al) if r.random() < 0.6 else "")
    return gen.random_string(r, r.choice([3, 6, 9]), al)


def history(ctx):
    r = ctx.rng
    al = r.choice(["a", "ab", "abc", "é雪\U0001f600", "a b\n\\\""])
    bare = r.random() < 0.1
    g, ws, pool, ops = Trie(num_vertices=0) if bare else Trie(), set(), [], []
    ctx.note(ops=ops, bare=bare)
    if bare:
        # no state yet: the first insertion makes the root
        w = word(r, al, pool)
        if r.random() < 0.5:
            g.insert(w)
        else:
            h = Trie()
            h.insert(w)
            g.insert(h)
        ws.add(w)
    check_trie(ctx, g, ws)
    for _ in range(r.randint(1, 9)):
        x = r.random()
        if x < 0.6:
            w = word(r, al, pool)
            ops.append(w)
            if w in ws:
                ctx.ev("reinsertions")
            if not w:
                ctx.ev("empty word inserted")
            (g.insert if r.random() < 0.8 else g.automaton_insert_string)(w)
            ws.add(w)
            pool.append(w)
            ctx.ev("words inserted")
        elif x < 0.7:
            w = word(r, al, pool)
            ops.append(("sequence", w))
            s = DigitalSequence(w)
            g.insert(s)
            ctx.eq(s.w, w, "inserting a sequence altered it")
            ws.add(w)
            pool.append(w)
            ctx.ev("sequences inserted")
        elif x < 0.95:
            h, hw = Trie(), set()
            for _ in range(r.randint(0, 6)):
                w = word(r, al, pool)
                h.insert(w)
                hw.add(w)
            ops.append(("trie", sorted(hw)))
            snap = gen.snapshot(h)
            (g.insert if r.random() < 0.5 else lambda t: trie_deterministic_fusion(g, t))(h)
            ctx.eq(gen.snapshot(h), snap, "inserting a trie altered it")
            check_trie(ctx, h, hw, "inserted trie")
            ws |= hw
            pool += sorted(hw)
            ctx.ev("tries inserted")
        elif x < 0.97:
            ops.append("clear")
            g.clear()
            ws = set()
            ctx.eq((g.num_vertices(), g.num_edges(), g.accepts("")), (0, 0, False), "a cleared trie")
            if r.random() < 0.5:
                w = word(r, al, pool)
                ops.append(w)
                g.insert(w)
                ws.add(w)
            else:
                h, w = Trie(), word(r, al, pool)
                h.insert(w)
                ops.append(("trie", [w]))
                g.insert(h)
                ws.add(w)
            ctx.ev("cleared")
        elif len(ws) < 30:
            ops.append("itself")
            g.insert(g)
            ctx.ev("tries inserted")
        check_trie(ctx, g, ws)
    snap = gen.snapshot(g)
    for w in sorted(ws):
        g.insert(w)
    ctx.eq(gen.snapshot(g), snap, "inserting words already present changed the trie")
    if len(prefixes(ws)) < sum(map(len, ws)) + 1:
        ctx.ev("shared prefixes")
        ctx.nontrivial(repr(ops))
    # the fusion of tries is their union whatever the order
    if len(ws) > 1:
        l = sorted(ws)
        r.shuffle(l)
        k = r.randint(0, len(l))
        a, b = Trie(), Trie()
        for w in l[:k]:
            a.insert(w)
        for w in l[k:]:
            b.insert(w)
        a.insert(b)
        check_trie(ctx, a, ws, "fusion")
        check_trie(ctx, b, set(l[k:]), "second operand of the fusion")
    ctx.sample(ops=ops)


def suffix(ctx):
    r = ctx.rng
    w = gen.random_string(r, r.choice([2, 5, 9, 14]), r.choice(["a", "ab", "abc", "é雪\U0001f600"]))
    m = r.choice([None, 0, 1, 2, 3, len(w), len(w) + 3])
    ctx.note(word=w, max_len=m)
    lim = len(w) if m is None else m
    if m == 0:
        ctx.ev("max_len 0")
    if m is not None and m > len(w):
        ctx.ev("max_len beyond")
    want = [(i, j) for i in range(len(w)) for j in range(i + 1, len(w) + 1) if j - i <= lim]
    got = list(slices(len(w), m) if m is not None or r.random() < 0.5 else slices(len(w)))
    ctx.eq(sorted(got), sorted([(0, 0)] + want), "slices()")
    subs = {""} | {w[i:j] for i, j in want}
    fs = list(factors(w, m))
    ctx.eq(sorted(fs), sorted([""] + [w[i:j] for i, j in want]), "factors()")
    y = r.random()
    if y < 0.5:
        g = make_suffix_trie(w, m)
    elif y < 0.6:
        # a trie whose root is another state
        k = r.randint(1, 3)
        g = Trie(num_vertices=k + 1, q0=k, pmap_vfinal=make_func_property_map(lambda q: q is not None))
        make_suffix_trie(w, m, g)
        for q in range(k):
            ctx.eq(list(g.out_edges(q)), [], "a suffix starts elsewhere than at the initial state", state=q)
            g.remove_vertex(q)
        ctx.ev("other root")
    elif y < 0.68:
        # a trie whose states have all been removed
        g = Trie(pmap_vfinal=make_func_property_map(lambda q: q is not None))
        for q in range(r.randint(0, 2)):
            g.add_edge(q, g.add_vertex(), "a")
        for q in list(g.vertices()):
            g.remove_vertex(q)
        make_suffix_trie(w, m, g)
        ctx.ev("emptied trie")
    else:
        g = Trie(pmap_vfinal=make_func_property_map(lambda q: q is not None), **({"num_vertices": 0} if y < 0.8 else {}))
        h = make_suffix_trie(w, m, g)
        ctx.expect(h is g, "the trie supplied is not the one returned")
    check_trie(ctx, g, subs, "suffix trie")
    for x in gen.words(r, sorted(set(w)), 8, 5):
        x = "".join(x)
        ctx.eq(bool(g.accepts(x)), x in w and len(x) <= lim, "suffix trie: accepts()", factor=x)
    # a suffix trie can be inserted in a trie
    t = Trie()
    t.insert("z")
    t.insert(g)
    check_trie(ctx, t, subs | {"z"}, "trie after insertion of a suffix trie")
    ctx.ev("suffix tries")
    if len(subs) < len(want) + 1:
        ctx.nontrivial(w, m)
    ctx.sample(word=w, max_len=m)


def several(ctx):
    """The suffix tries of several words gathered in one trie."""
    r = ctx.rng
    ws = [gen.random_string(r, 7, "ab") for _ in range(r.randint(1, 4))]
    m = r.choice([None, 1, 3])
    ctx.note(words=ws, max_len=m)
    g = make_suffix_trie(ws[0], m)
    for w in ws[1:]:
        make_suffix_trie(w, m, g)
    subs = {""} | {w[i:j] for w in ws for i in range(len(w)) for j in range(i + 1, len(w) + 1) if m is None or j - i <= m}
    check_trie(ctx, g, subs, "suffix trie of several words")
    ctx.nontrivial(ws, m)


def exhaustive_suffix(ctx):
    """Every word over {a,b} up to length 6, every bound."""
    i = ctx.i
    m, i = i % 9, i // 9
    n = 0
    while i >= 2 ** n:
        i -= 2 ** n
        n += 1
    w = "".join("ab"[i >> k & 1] for k in range(n))
    m = None if m == 8 else m
    ctx.note(word=w, max_len=m)
    lim = n if m is None else m
    subs = {""} | {w[a:b] for a in range(n) for b in range(a + 1, n + 1) if b - a <= lim}
    check_trie(ctx, make_suffix_trie(w, m), subs, "suffix trie")
    ctx.eq(set(factors(w, m)), subs, "factors()")


def big(ctx):
    """Many or long words, wide nodes, large tries inserted in one another, suffixes of a long word."""
    r = ctx.rng
    k = ctx.i % 4
    if k == 3:
        al = r.choice(["a", "ab", "abcdefgh", "".join(chr(0x4e00 + j) for j in range(290))])
        w = "".join(r.choice(al) for _ in range(r.choice([40, 70, 90])))
        m = r.choice([None, None, 1, 5, 20, 38, 66, 89])
        lim = len(w) if m is None else m
        ctx.note(word=w, max_len=m)
        want = [(i, j) for i in range(len(w)) for j in range(i + 1, len(w) + 1) if j - i <= lim]
        ctx.eq(sorted(slices(len(w), m)), sorted([(0, 0)] + want), "slices()")
        ctx.eq(sorted(factors(w, m)), sorted([""] + [w[i:j] for i, j in want]), "factors()")
        n, b = r.choice([130, 300]), r.choice([0, 1, 4, 100, None])
        ctx.eq(sorted(slices(n, b)), sorted([(0, 0)] + [(i, j) for i in range(n) for j in range(i + 1, (n if b is None else min(n, i + b)) + 1)]), "slices() of a long word", n=n, max_len=b)
        check_trie(ctx, make_suffix_trie(w, m), {""} | {w[i:j] for i, j in want}, "suffix trie")
        ctx.ev("large tries")
        ctx.nontrivial(w, m)
        return
    al = ["ab", "abcdefgh", "".join(chr(0x4e00 + j) for j in range(290))][k]

    def some():
        n = r.choice([2, 40, 150])
        ws = {gen.random_string(r, r.choice([300, 900]) if n == 2 else r.choice([3, 12]), al) for _ in range(n)}
        return ws | (set(al) if k == 2 and r.random() < 0.5 else set())

    a, b = some(), some()
    b |= {w[:r.randint(0, len(w))] + "a" for w in sorted(a)[:20]}
    ctx.note(words1=a, words2=b)
    g, h = Trie(), Trie()
    for t, ws in ((g, a), (h, b)):
        l = sorted(ws)
        r.shuffle(l)
        for w in l:
            t.insert(w)
            ctx.ev("words inserted")
        check_trie(ctx, t, ws)
    (g.insert if r.random() < 0.5 else lambda t: trie_deterministic_fusion(g, t))(h)
    ctx.ev("tries inserted")
    check_trie(ctx, g, a | b, "fusion")
    check_trie(ctx, h, b, "inserted trie")
    ctx.ev("large tries")
    ctx.nontrivial(repr(sorted(a))[:2000], len(b))


FAMILIES = [
    Fam("big", big, 320, 6000),
    Fam("history", history, 6000, 120000),
    Fam("suffix", suffix, 6000, 120000),
    Fam("several", several, 1200, 20000),
    Fam("exhaustive", exhaustive_suffix, 127 * 9, 127 * 9),
]
