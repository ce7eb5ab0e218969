"""C15: trie matching counters recomputed from the word sets."""
from pybgl.digital_sequence import DigitalSequence
from pybgl.suffix_trie import factors, make_suffix_trie
from pybgl.trie import Trie
from pybgl.trie_matching import TrieMatchingVisitor, trie_matching

from .. import gen
from ..core import Fam
from .c13 import prefixes, word

ANCHORS = ["trie_matching.py", "parallel_breadth_first_search.py", "trie.py"]
RULE = (
    "A case is a pair of finite word sets (as tries, one-word sequences or suffix tries); the four counters are recomputed from the sets. "
    "Non-trivial: the three word counters are all positive; distinct by pair of sets."
)
REQUIRED = ["neither", "only first", "only second", "both", "sequences", "suffix tries", "empty set", "large tries"]
ASSUMPTIONS = ["each counter counts prefixes of words of either trie, once each"]


def make(ctx, r, al, pool):
    x = r.random()
    if x < 0.1:
        w = word(r, al, pool)
        ctx.ev("sequences")
        return {w}, DigitalSequence(w)
    if x < 0.2:
        w = gen.random_string(r, 6, al)
        m = r.choice([None, 1, 2, 3])
        ctx.ev("suffix tries")
        return set(factors(w, m)), make_suffix_trie(w, m)
    ws = {word(r, al, pool) for _ in range(r.choice([0, 1, 3, 8]))}
    t = Trie()
    l = sorted(ws)
    r.shuffle(l)
    for w in l:
        t.insert(w)
    if not ws:
        ctx.ev("empty set")
    return ws, t


def judge(ctx, w1, g1, w2, g2):
    P = prefixes(w1) | prefixes(w2) | {""}
    want = [0, 0, 0, 0]
    for p in P:
        want[(p in w1) + 2 * (p in w2)] += 1
    s = (gen.snapshot(g1), gen.snapshot(g2))
    got = trie_matching(g1, g2) if ctx.rng.random() < 0.6 else trie_matching(g1, g2, TrieMatchingVisitor())
    ctx.eq(list(got), want, "counters")
    ctx.eq((gen.snapshot(g1), gen.snapshot(g2)), s, "matching altered a trie")
    again = trie_matching(g1, g2)
    ctx.eq(list(again), want, "counters of a second call")
    for k, v in zip(("neither", "only first", "only second", "both"), want):
        ctx.ev(k, v)
    if all(want[1:]):
        ctx.nontrivial(sorted(w1), sorted(w2))


def rand(ctx):
    r = ctx.rng
    al = r.choice(["a", "ab", "abc", "é雪"])
    pool = [gen.random_string(r, 6, al) for _ in range(3)]
    w1, g1 = make(ctx, r, al, pool)
    w2, g2 = make(ctx, r, al, pool + sorted(w1))
    ctx.note(words1=sorted(w1), words2=sorted(w2))
    judge(ctx, w1, g1, w2, g2)
    judge(ctx, w2, g2, w1, g1)
    ctx.sample(words1=sorted(w1), words2=sorted(w2))


def exhaustive(ctx):
    """Every pair of subsets of the words over {a,b} of length <= 1 plus aa, ab."""
    U = ["", "a", "b", "aa", "ab"]
    i, j = divmod(ctx.i, 32)
    A, B = [{w for k, w in enumerate(U) if x >> k & 1} for x in (i, j)]
    gs = []
    for S in (A, B):
        t = Trie()
        for w in sorted(S):
            t.insert(w)
        gs.append(t)
    ctx.note(words1=A, words2=B)
    judge(ctx, A, gs[0], B, gs[1])


def big(ctx):
    """Many or long words: large counters."""
    r = ctx.rng
    al = r.choice(["a", "ab", "abcdefgh", "".join(chr(0x4e00 + j) for j in range(290))])
    n = r.choice([2, 60, 200])

    def some():
        return {gen.random_string(r, r.choice([200, 700]) if n == 2 else r.choice([3, 10]), al) for _ in range(r.choice([n, n // 2]))}

    w1 = some()
    w2 = {w for w in w1 if r.random() < 0.5} | some()
    if r.random() < 0.3:
        w2 |= {w[:r.randint(0, len(w))] for w in w1}
    gs = []
    for S in (w1, w2):
        t = Trie()
        for w in sorted(S):
            t.insert(w)
        gs.append(t)
    ctx.note(words1=sorted(w1), words2=sorted(w2))
    judge(ctx, w1, gs[0], w2, gs[1])
    judge(ctx, w2, gs[1], w1, gs[0])
    ctx.ev("large tries")


FAMILIES = [
    Fam("big", big, 320, 6000),
    Fam("exhaustive", exhaustive, 1024, 1024), Fam("rand", rand, 10000, 200000)]
