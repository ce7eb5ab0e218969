"""C28: string distances against the definitions (table filled backwards; breadth-first search over edits)."""
import sys
from pybgl.damerau_levenshtein_distance import DamerauLevenshteinDistance, damerau_levenshtein_distance, damerau_levenshtein_distance_naive
from pybgl.lcs_distance import LcsDistance, lcs_distance, lcs_distance_naive
from pybgl.levenshtein_distance import LevenshteinDistance, levenshtein_distance, levenshtein_distance_naive

from ..core import Fam

ANCHORS = ["levenshtein_distance.py", "damerau_levenshtein_distance.py", "lcs_distance.py"]
RULE = (
    "A case is a pair of strings (all pairs of at most 3 letters over two or three symbols, random ones, mutations of one another, long ones) whose six distances are compared with full tables that "
    "never skip an alternative, and, for short strings, with a breadth-first search over single edits. Non-trivial: distinct strings sharing a symbol; distinct by pair."
)
REQUIRED = ["levenshtein", "damerau", "lcs", "by edits", "swap pays", "equal", "empty", "long", "naive", "non-ASCII", "suffixes", "much longer"]
ASSUMPTIONS = ["the sum of lengths is within the interpreter's recursion limit", "swaps are those of the optimal string alignment distance (no substring edited twice)"]


def table(x, y, sub, swap):
    n, m = len(x), len(y)
    d = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(m + 1):
            c = []
            if i:
                c.append(d[i - 1][j] + 1)
            if j:
                c.append(d[i][j - 1] + 1)
            if i and j:
                if x[i - 1] == y[j - 1]:
                    c.append(d[i - 1][j - 1])
                elif sub:
                    c.append(d[i - 1][j - 1] + 1)
                if swap and i > 1 and j > 1 and x[i - 1] == y[j - 2] and x[i - 2] == y[j - 1]:
                    c.append(d[i - 2][j - 2] + 1)
            d[i][j] = min(c) if c else 0
    return d[n][m]


def edits(x, y, sub):
    """Least number of single edits, by breadth-first search over strings."""
    letters = sorted(set(x) | set(y))
    bound = max(len(x), len(y))
    seen, layer, k = {x}, [x], 0
    while True:
        if y in seen:
            return k
        nxt = []
        for s in layer:
            out = [s[:i] + s[i + 1:] for i in range(len(s))]
            if len(s) < bound + 1:
                out += [s[:i] + a + s[i:] for i in range(len(s) + 1) for a in letters]
            if sub:
                out += [s[:i] + a + s[i + 1:] for i in range(len(s)) for a in letters]
            for t in out:
                if t not in seen:
                    seen.add(t)
                    nxt.append(t)
        layer, k = nxt, k + 1


FUNS = [
    ("levenshtein", levenshtein_distance, levenshtein_distance_naive, True, False, LevenshteinDistance),
    ("damerau", damerau_levenshtein_distance, damerau_levenshtein_distance_naive, True, True, DamerauLevenshteinDistance),
    ("lcs", lcs_distance, lcs_distance_naive, False, False, LcsDistance),
]


def judge(ctx, x, y, naive=True, brute=False):
    ctx.note(x=x, y=y)
    val = {}
    for name, f, fn, sub, swap, cls in FUNS:
        want = table(x, y, sub, swap)
        val[name] = want
        got = f(x, y)
        ctx.eq(got, want, f"{name} distance")
        ctx.expect(type(got) is int, "a distance must be an integer", got=got)
        ctx.eq(f(y, x), want, f"{name} distance of the swapped pair")
        if naive and (name != "damerau" or len(x) + len(y) <= 9):
            ctx.eq(fn(x, y), want, f"naive {name} distance")
            ctx.ev("naive")
        if brute and name != "damerau":
            ctx.eq(want, edits(x, y, sub), f"{name} distance by single edits")
            ctx.ev("by edits")
        if ctx.rng.random() < 0.2:
            D = cls(x, y)
            for _ in range(ctx.rng.randint(1, 3)):
                i, j = ctx.rng.randint(0, len(x)), ctx.rng.randint(0, len(y))
                ctx.eq(D.compute(i, j), table(x[i:], y[j:], sub, swap), f"{name} distance of suffixes", i=i, j=j)
            ctx.eq(D.compute(), want, f"{name} distance by the class")
            ctx.eq(cls(x, y).compute(), want, f"{name} distance by the class")
            ctx.ev("suffixes")
        ctx.ev(name)
        ctx.eq(f(x, x), 0, f"{name} distance of a string to itself")
        ctx.expect((got == 0) == (x == y), f"{name} distance is null for different strings")
    ctx.ev("swap pays", int(val["damerau"] < val["levenshtein"]))
    ctx.ev("equal", int(x == y))
    ctx.ev("empty", int(not x or not y))
    ctx.ev("non-ASCII", int(not (x + y).isascii()))
    if x != y and set(x) & set(y):
        ctx.nontrivial(x, y)
    ctx.sample(x=x, y=y, distances=val)


SMALL = [""] + [a for a in "ab"] + [a + b for a in "ab" for b in "ab"] + [a + b + c for a in "ab" for b in "ab" for c in "ab"]
SMALL3 = [""] + list("abc") + [a + b for a in "abc" for b in "abc"] + [a + b + c for a in "abc" for b in "abc" for c in "abc"]


def exhaustive(ctx):
    L = SMALL3
    judge(ctx, L[ctx.i % len(L)], L[ctx.i // len(L)], brute=False)
    if L[ctx.i % len(L)] in SMALL and L[ctx.i // len(L)] in SMALL:
        judge(ctx, L[ctx.i % len(L)], L[ctx.i // len(L)], brute=True)


def mutate(r, x, letters, k):
    s = list(x)
    for _ in range(k):
        m = r.choice(["del", "ins", "sub", "swap", "swap"])
        if m == "ins":
            s.insert(r.randint(0, len(s)), r.choice(letters))
        elif s and m == "del":
            del s[r.randrange(len(s))]
        elif s and m == "sub":
            s[r.randrange(len(s))] = r.choice(letters)
        elif len(s) > 1:
            i = r.randrange(len(s) - 1)
            s[i], s[i + 1] = s[i + 1], s[i]
    return "".join(s)


def letters(r):
    return r.choice(["ab", "abc", "a", "abcdefgh", "aé雪\U0001f600", "a\n \\\"", "aAbB", "e\u0301é"])


def rand(ctx):
    r = ctx.rng
    a = letters(r)
    n = r.choice([4, 8, 8, 16])
    x = "".join(r.choice(a) for _ in range(r.randint(0, n)))
    y = mutate(r, x, a, r.randint(0, 4)) if r.random() < 0.5 else "".join(r.choice(a) for _ in range(r.randint(0, n)))
    judge(ctx, x, y, naive=len(x) + len(y) <= 16)


def long(ctx):
    r = ctx.rng
    sys.setrecursionlimit(20000)  # how many frames a letter takes is no one's business
    a = letters(r)
    n = r.randint(40, 120)
    x = "".join(r.choice(a) for _ in range(n))
    if r.random() < 0.15:  # one much longer than the other
        x, n = "".join(r.choice(a) for _ in range(r.choice([300, 530, 700, 700]))), 0
        y = "".join(r.choice(a) for _ in range(r.randint(0, 3)))
        if r.random() < 0.5:
            x, y = y, x
        judge(ctx, x, y, naive=False)
        ctx.ev("much longer")
        return
    y = mutate(r, x, a, r.randint(0, 30)) if r.random() < 0.7 else "".join(r.choice(a) for _ in range(r.randint(0, 120)))
    judge(ctx, x, y, naive=False)
    ctx.ev("long")


FAMILIES = [
    Fam("exhaustive", exhaustive, len(SMALL3) ** 2, len(SMALL3) ** 2),
    Fam("rand", rand, 12000, 240000),
    Fam("long", long, 240, 6000),
]
