"""C12: inclusion test against exact language comparison."""
from pybgl.automaton import Automaton
from pybgl.deterministic_inclusion import DeterministicInclusionVisitor, deterministic_inclusion
from pybgl.incidence_automaton import IncidenceAutomaton

from .. import gen
from ..core import Fam
from .c11 import N2, nth2, operand

ANCHORS = ["deterministic_inclusion.py", "parallel_breadth_first_search.py"]
RULE = (
    "A case is a pair of deterministic automata classified by searching all reachable pairs of states for words of each difference (exact). "
    "Non-trivial: both languages are non-empty; distinct by pair."
)
REQUIRED = ["answer 1", "answer 0", "answer -1", "answer None", "node operand", "edge operand", "empty operand language", "equal but not isomorphic", "many states or symbols"]
ASSUMPTIONS = ["the initial state is a state of the automaton"]


def only(d1, d2):
    """True if some word is accepted by d1 and not by d2."""
    start = (d1.init, d2.init)
    seen, todo = {start}, [start]
    for q1, q2 in todo:
        if q1 in d1.finals and not (q2 is not None and q2 in d2.finals):
            return True
        for a in d1.tr.get(q1, ()):
            n = (d1.delta(q1, a), d2.delta(q2, a))
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return False


def judge(ctx, d1, g1, d2, g2):
    a, b = only(d1, d2), only(d2, d1)
    want = None if a and b else -1 if a else 1 if b else 0
    s1, s2 = gen.snapshot(g1), gen.snapshot(g2)
    got = deterministic_inclusion(g1, g2) if ctx.rng.random() < 0.6 else deterministic_inclusion(g1, g2, DeterministicInclusionVisitor())
    ctx.eq(got, want, "wrong classification")
    ctx.eq((gen.snapshot(g1), gen.snapshot(g2)), (s1, s2), "the inclusion test altered an operand")
    ctx.ev(f"answer {want}")
    if want == 0 and len(d1.reachable()) != len(d2.reachable()):
        ctx.ev("equal but not isomorphic")
    if d1.reachable() & d1.finals and d2.reachable() & d2.finals:
        ctx.nontrivial(repr(d1), repr(d2))


def rand(ctx):
    r = ctx.rng
    al = r.choice([["a"], ["a", "b"], [0, 1], ["é", "雪"]]) if r.random() < 0.8 else r.choice(gen.ALPHABETS)
    d1, g1 = operand(ctx, al)
    d2, g2 = operand(ctx, al)
    ctx.note(g1=d1, g2=d2)
    judge(ctx, d1, g1, d2, g2)
    judge(ctx, d1, g1, d1, g1)
    ctx.sample(g1=d1, g2=d2)


def mutate(ctx):
    """Two automata for the same language (states cloned), then one of them loses or gains final states or transitions."""
    r = ctx.rng
    al = r.choice([["a"], ["a", "b"], [0, 1, 2]])
    d = gen.dfa(r, n_max=r.choice([2, 4, 6]), alphabet=al, density=r.choice([0.5, 0.8, 1.0]))

    def clone(d):
        c, k = {}, 0
        for q in range(d.n):
            m = r.randint(1, 2)
            c[q] = list(range(k, k + m))
            k += m
        tr = {x: {a: r.choice(c[s]) for a, s in t.items()} for q, t in d.tr.items() for x in c[q]}
        return gen.Dfa(k, r.choice(c[d.init]), {x for q in d.finals for x in c[q]}, tr)

    d1, d2 = clone(d), clone(d)
    m = r.random()
    for _ in range(r.choice([0, 1, 1, 2])):
        x = r.choice([d1, d2]) if m < 0.3 else d1 if m < 0.65 else d2
        q = r.randrange(x.n)
        y = r.random()
        if y < 0.4:
            x.finals ^= {q}
        elif y < 0.6:
            x.finals.discard(q)
        elif y < 0.8 and x.tr.get(q):
            del x.tr[q][r.choice(sorted(x.tr[q], key=repr))]
        else:
            x.tr.setdefault(q, {})[r.choice(al)] = r.randrange(x.n)
    ctx.note(g1=d1, g2=d2)
    C = r.choice([Automaton, IncidenceAutomaton])
    g1, _ = gen.build_dfa(C, d1, r)
    g2, _ = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d2, r)
    judge(ctx, d1, g1, d2, g2)
    judge(ctx, d2, g2, d1, g1)


def exhaustive(ctx):
    k = ctx.i if ctx.thorough else ctx.i * 31 + ctx.seed % 31
    d1, d2 = nth2(k // N2), nth2(k % N2)
    ctx.note(g1=d1, g2=d2)
    judge(ctx, d1, gen.build_dfa(Automaton, d1)[0], d2, gen.build_dfa(Automaton, d2)[0])


def chains(ctx):
    """One-letter languages {a^k : k in S} on long chains: the deciding words are far from the start."""
    r = ctx.rng
    n = r.randint(20, 120)
    S = {k for k in range(n) if r.random() < 0.2}
    T = set(S)
    for _ in range(r.randint(0, 2)):
        (T.add if r.random() < 0.5 else T.discard)(r.choice([n - 1, r.randrange(n)]))

    def mk(X):
        m = max(X, default=0) + 1 + r.randint(0, 3)
        return gen.Dfa(m, 0, X, {q: {"a": q + 1} for q in range(m - 1)})

    d1, d2 = mk(S), mk(T)
    ctx.note(S=S, T=T)
    judge(ctx, d1, gen.build_dfa(Automaton, d1)[0], d2, gen.build_dfa(Automaton, d2)[0])


def big(ctx):
    """Large automata for nearly the same language: some final states far from the start make the difference."""
    r = ctx.rng
    kind = r.choice(["chain", "ring", "tree", "wide", "hub", "random"])
    d = gen.big_dfa(r, kind, None, 0.7)
    d1, d2 = [gen.Dfa(d.n, d.init, set(d.finals), {q: dict(t) for q, t in d.tr.items()}) for _ in range(2)]
    for _ in range(r.choice([0, 1, 1, 2])):
        x = r.choice([d1, d2])
        y = r.random()
        if y < 0.6:
            x.finals ^= {r.choice([x.n - 1, r.randrange(x.n)])}
        elif x.tr:
            q = r.choice(sorted(x.tr))
            if x.tr[q]:
                a = r.choice(sorted(x.tr[q], key=repr))
                if y < 0.8:
                    del x.tr[q][a]
                else:
                    x.tr[q][a] = r.randrange(x.n)
    ctx.note(g1=d1, g2=d2)
    g1, g2 = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d1, r)[0], gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d2, r)[0]
    judge(ctx, d1, g1, d2, g2)
    judge(ctx, d2, g2, d1, g1)
    ctx.ev("many states or symbols")


FAMILIES = [
    Fam("big", big, 640, 12000),
    Fam("rand", rand, 16000, 320000),
    Fam("mutate", mutate, 12000, 240000),
    Fam("exhaustive", exhaustive, N2 * N2 // 31, N2 * N2),
    Fam("chains", chains, 1600, 32000),
]
