"""C06: determinization compared exactly (pair search) with the NFA's path semantics."""
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.moore_determination import moore_determination
from pybgl.nfa import EPSILON, Nfa

from .. import gen
from ..core import Fam
from ..nfaref import RefNfa, build_nfa, difference_nfa_dfa, random_nfa, read_nfa

ANCHORS = ["moore_determination.py", "nfa.py", "automaton.py"]
RULE = (
    "A case is an NFA (random, or one of all 2-state NFAs over {a, epsilon} in the exhaustive family) determinized with both options; "
    "the result is compared with the NFA by a search of all reachable pairs (set of NFA states, DFA state), which is exact. Non-trivial: "
    "some reachable subset has at least 2 states; distinct by NFA and option."
)
REQUIRED = ["complete", "partial", "epsilon cycles", "several initial states", "no initial state", "subset of size 2+", "empty subset reached", "states compared", "many states"]
ASSUMPTIONS = ["when there is no initial state, the empty set is the (initial) subset of the result in both modes"]


def subsets(ref, complete):
    """Reachable subsets; the empty one only when complete (or initial)."""
    al = ref.alphabet()
    q0 = frozenset(ref.close(ref.inits))
    seen, todo = {q0}, [q0]
    while todo:
        qs = todo.pop()
        for a in al:
            rs = frozenset(ref.step(qs, a))
            if not rs and not complete:
                continue
            if rs not in seen:
                seen.add(rs)
                todo.append(rs)
    return seen


def judge(ctx, ref, g, complete, out=None):
    before = repr(read_nfa(g))
    alphabet = ref.alphabet()
    if out is not None:
        d = moore_determination(g, out, complete)
        ctx.expect(d is out, "the automaton supplied is not the one returned")
    elif ctx.rng.random() < 0.5 and complete:
        d = moore_determination(g)
    else:
        d = moore_determination(g, complete=complete)
    ctx.eq(repr(read_nfa(g)), before, "determinizing altered the NFA")
    try:
        D = gen.read_dfa(d)
    except AssertionError as e:
        ctx.fail(f"the result is not deterministic: {e}")
    ctx.note(result=D)
    ctx.expect(D.init is not None, "the result has no initial state")
    w = difference_nfa_dfa(ref, D, alphabet)
    ctx.expect(w is None, "the result does not accept the same words", word=w)
    # membership through the public query too
    for x in gen.words(ctx.rng, sorted(alphabet, key=repr), 4, 6):
        ctx.eq(bool(d.accepts(x)), ref.accepts(x), "accepts() of the result", word=x)
    want = subsets(ref, complete)
    ctx.eq(d.num_vertices(), len(want), "number of states is not the number of reachable subsets", subsets=sorted(map(sorted, want)))
    ctx.ev("states compared", len(want))
    if complete:
        ctx.ev("complete")
        for q in d.vertices():
            for a in alphabet:
                ctx.expect(d.delta(q, a) is not None, "no transition in a complete automaton", q=q, a=a)
        if alphabet:
            ctx.eq(set(d.alphabet()), alphabet, "alphabet of the complete result")
    else:
        ctx.ev("partial")
    if frozenset() in subsets(ref, True):
        ctx.ev("empty subset reached")
    if any(len(s) > 1 for s in want):
        ctx.ev("subset of size 2+")
        ctx.nontrivial(repr(ref), complete)
    return d


def note(ctx, ref):
    ctx.note(nfa=ref)
    if ref.has_eps_cycle():
        ctx.ev("epsilon cycles")
    if len(ref.inits) > 1:
        ctx.ev("several initial states")
    if not ref.inits:
        ctx.ev("no initial state")


def rand(ctx):
    r = ctx.rng
    eps = r.choice([EPSILON, EPSILON, "e!", None])
    al = r.choice([a for a in gen.ALPHABETS if eps not in a])
    ref = random_nfa(r, al, eps, n_max=r.choice([2, 4, 6, 8]))
    note(ctx, ref)
    g = build_nfa(ref, Nfa, r)
    for complete in (True, False):
        out = r.choice([None, None, Automaton, IncidenceAutomaton])
        judge(ctx, ref, g, complete, gen.emptied(r, out()) if out else None)
    ctx.sample(nfa=ref)


def kth_from_end(ctx):
    """(a|b)* a (a|b)^k: 2^(k+1) subsets."""
    k = ctx.i % 7
    tr = {(0, 0, "a"), (0, 0, "b"), (0, 1, "a")}
    for j in range(1, k + 1):
        tr |= {(j, j + 1, "a"), (j, j + 1, "b")}
    ref = RefNfa(k + 2, {0}, {k + 1}, tr, EPSILON)
    note(ctx, ref)
    d = judge(ctx, ref, build_nfa(ref, Nfa, ctx.rng), bool(ctx.i % 2))
    ctx.eq(d.num_vertices(), 2 ** (k + 1), "number of states")


def exhaustive(ctx):
    i = ctx.i
    tr = set()
    for t in [(q, s, a) for q in range(2) for s in range(2) for a in ("a", EPSILON)]:
        i, b = i // 2, i % 2
        if b:
            tr.add(t)
    i, inits = i // 4, i % 4
    fin = i % 4
    ref = RefNfa(2, {q for q in range(2) if inits >> q & 1}, {q for q in range(2) if fin >> q & 1}, tr, EPSILON)
    note(ctx, ref)
    g = build_nfa(ref, Nfa)
    judge(ctx, ref, g, True)
    judge(ctx, ref, g, False)


def large(ctx):
    r = ctx.rng
    al = ["a", "b"]
    ref = random_nfa(r, al, EPSILON, n_max=11, n_min=8, eps_rate=0.05)
    note(ctx, ref)
    judge(ctx, ref, build_nfa(ref, Nfa, r), r.random() < 0.5)


def big(ctx):
    """Many states and few subsets: long chains, long epsilon chains, wide alphabets, many initial states."""
    r = ctx.rng
    kind = ["chain", "epsilon", "wide", "words", "ring", "fan"][ctx.i % 6]
    n = r.choice([30, 120, 280])
    inits, fin, al = {0}, {n - 1}, ["a", "b"]
    if kind == "chain":
        tr = {(k, k + 1, r.choice(al)) for k in range(n - 1)}
    elif kind == "epsilon":
        tr = {(k, k + 1, EPSILON) for k in range(n - 1) if k != n // 2} | {(n // 2, n // 2 + 1, "a"), (n - 1, 0, "b")}
    elif kind == "wide":
        n = r.randint(3, 5)
        fin = {n - 1}
        al = gen.wide_alphabet(r, r.choice([60, 280]))
        tr = {(r.randrange(n), r.randrange(n), r.choice(al)) for _ in range(2 * len(al))} | {(0, n - 1, EPSILON)}
    elif kind == "words":  # one branch per word, from as many initial states
        tr, inits, fin, n = set(), set(), set(), 0
        for _ in range(r.choice([10, 40])):
            w = gen.random_string(r, 8, "ab")
            inits.add(n)
            for a in w:
                tr.add((n, n + 1, a))
                n += 1
            fin.add(n)
            n += 1
    elif kind == "fan":  # hundreds of states at once, few of which matter
        x = r.choice([1, 1, n - 2, r.randint(1, n - 2)])
        tr = {(0, k, r.choice(["a", EPSILON])) for k in range(1, n - 1)} | {(x, n - 1, "b")} | {(k, k, "a") for k in range(1, n - 1) if r.random() < 0.9}
    else:
        n = r.choice([12, 30])
        tr = {(k, (k + 1) % n, "a") for k in range(n)} | {(k, k, "b") for k in range(n)}
        inits = {k for k in range(n) if r.random() < 0.5} or {0}
        fin = {k for k in range(n) if r.random() < 0.5}
    ref = RefNfa(n, inits, fin, tr, EPSILON)
    note(ctx, ref)
    judge(ctx, ref, build_nfa(ref, Nfa, r), r.random() < 0.5)
    ctx.ev("many states")


FAMILIES = [
    Fam("big", big, 400, 8000),
    Fam("exhaustive", exhaustive, 4096, 4096),
    Fam("rand", rand, 12000, 240000),
    Fam("kth", kth_from_end, 14, 14),
    Fam("large", large, 1200, 24000),
]
