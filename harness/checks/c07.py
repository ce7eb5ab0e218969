"""C07: compiled regular expressions compared exactly with the position automaton of their syntax tree."""
import string
import sys

from pybgl.nfa import EPSILON, Nfa
from pybgl.moore_determination import moore_determination
from pybgl.regexp import compile_dfa, compile_nfa
from pybgl.shunting_yard_postfix import re_escape
import pybgl.thompson_compile_nfa  # noqa: F401

from .. import gen
from ..core import Fam
from ..nfaref import RefNfa, build_nfa, difference_nfa_dfa, read_nfa

ANCHORS = ["thompson_compile_nfa.py", "regexp.py", "shunting_yard_postfix.py", "tokenize.py", "moore_determination.py", "nfa.py"]
RULE = (
    "A case is a random syntax tree written as an expression (random nesting of literals, escapes, classes, ranges, |, *, +, ?, {m}, {m,}, {,n}, {m,n}, "
    "redundant parentheses) whose compiled NFA and DFA are compared with the position automaton of the tree by a search of all reachable pairs (exact); or "
    "an operator applied to a random NFA with one initial and one final state; or an arbitrary escaped string. Non-trivial: at least 2 operators, some words "
    "accepted; distinct by expression."
)
REQUIRED = ["nfa", "dfa", "complete dfa", "star", "plus", "opt", "rep", "cat", "alt", "class", "negated class", "escape", "custom alphabet", "empty alphabet", "other empty-move symbol", "m=0", "no upper bound",
            "no lower bound", "nested quantifier", "ungrouped quantifiers", "escaped string", "operator on NFA", "words run", "range between escapes", "hyphen after a range", "large count", "long expressions", "insertion"]
ASSUMPTIONS = [
    "expressions of the supported syntax: no unescaped '.', no anchors, no empty alternative, group or class",
    "\\s is space and tab, \\w is [0-9A-Za-z] (documented), negated classes are relative to the compilation alphabet",
]
# the literal epsilon character is a listed finding (see known_findings.json)

T = sys.modules["pybgl.thompson_compile_nfa"]  # pybgl.thompson_compile_nfa is the function of that name
PRINTABLE = set(string.printable)
CLASS = {"d": set(string.digits), "s": set(" \t"), "w": set(string.digits + string.ascii_letters)}
CTRL = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
META = "|[]{}.+*?()^$\\"
PLAIN = "abcab01xyzAZ-_ ,:;!#%&'\"/<=>@`~"


# ------------------------------------------------------------ syntax trees
# ("set", frozenset) | ("cat", a, b) | ("alt", a, b) | ("star", a) | ("plus", a) | ("opt", a) | ("rep", a, m, n) | ("eps",)
def expand(t):
    """Tree without rep nodes."""
    k = t[0]
    if k in ("set", "eps"):
        return t
    if k in ("cat", "alt"):
        return (k, expand(t[1]), expand(t[2]))
    a = expand(t[1])
    if k != "rep":
        return (k, a)
    m, n = t[2], t[3]
    out = ("eps",)
    for _ in range(m):
        out = ("cat", out, a)
    if n is None:
        return ("cat", out, ("star", a))
    for _ in range(n - m):
        out = ("cat", out, ("opt", a))
    return out


def glushkov(t):
    """Epsilon-free NFA of the tree: position 0 is initial, others are occurrences of sets."""
    sets = [None]
    follow = {}

    def go(t):
        k = t[0]
        if k == "eps":
            return True, frozenset(), frozenset()
        if k == "set":
            p = len(sets)
            sets.append(t[1])
            return False, frozenset([p]), frozenset([p])
        if k == "alt":
            n1, f1, l1 = go(t[1])
            n2, f2, l2 = go(t[2])
            return n1 or n2, f1 | f2, l1 | l2
        if k == "cat":
            n1, f1, l1 = go(t[1])
            n2, f2, l2 = go(t[2])
            for p in l1:
                follow.setdefault(p, set()).update(f2)
            return n1 and n2, f1 | (f2 if n1 else frozenset()), l2 | (l1 if n2 else frozenset())
        n1, f1, l1 = go(t[1])
        if k in ("star", "plus"):
            for p in l1:
                follow.setdefault(p, set()).update(f1)
        return n1 or k != "plus", f1, l1

    nullable, first, last = go(t)
    follow[0] = set(first)
    return sets, follow, set(last) | ({0} if nullable else set())


def ref_dfa(t):
    sets, follow, finals = glushkov(expand(t))
    start = frozenset([0])
    ids, todo, tr = {start: 0}, [start], {}
    for S in todo:
        nxt = {}
        for p in S:
            for q in follow.get(p, ()):
                for a in sets[q]:
                    nxt.setdefault(a, set()).add(q)
        for a, Q in nxt.items():
            Q = frozenset(Q)
            if Q not in ids:
                ids[Q] = len(ids)
                todo.append(Q)
                if len(ids) > 3000:
                    return None
            tr.setdefault(ids[S], {})[a] = ids[Q]
    return gen.Dfa(len(ids), 0, {i for S, i in ids.items() if S & finals}, tr)


# ------------------------------------------------------------ generation
def class_text(ctx, r, al):
    """A bracket expression and its set of characters (relative to al when negated)."""
    items, out = [], set()
    neg = r.random() < 0.3
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        k = r.random()
        if k < 0.35:
            c = r.choice("abcxyz019,;:()+*?.|{}$/ " if r.random() < 0.6 else "abc01")
            items.append(c)
            out.add(c)
        elif k < 0.65:
            lo, hi = sorted(r.choice([("a", "c"), ("a", "e"), ("0", "9"), ("A", "D"), ("x", "z"), ("b", "b"), ("+", "/"), (" ", "&"), ("X", "b"), ("\u00e9", "\u00ee"), ("\U0001f600", "\U0001f605")]))
            items.append(f"{lo}-{hi}")
            out |= {chr(i) for i in range(ord(lo), ord(hi) + 1)}
            if r.random() < 0.5:
                lo, hi = sorted(r.choice(META + "az09-~" + ("\t\r" if r.random() < 0.2 else "")) for _ in range(2))
                esc = lambda c: "\\" + c if c in META else "\\t" if c == "\t" else "\\r" if c == "\r" else c  # noqa: E731
                if lo != "-":
                    items.append(f"{esc(lo)}-{esc(hi)}")
                    out |= {chr(i) for i in range(ord(lo), ord(hi) + 1)}
                    ctx.ev("range between escapes")
            if r.random() < 0.15:
                items[-1] += "-"  # a hyphen after a range stands for itself
                out.add("-")
                ctx.ev("hyphen after a range")
        elif k < 0.8:
            c = r.choice("dswDSW")
            items.append("\\" + c)
            out |= CLASS[c] if c.islower() else al - CLASS[c.lower()]
            ctx.ev("class in class")
        elif k < 0.92:
            c = r.choice("]\\[^.*")
            items.append("\\" + c)
            out.add(c)
        else:
            c = r.choice("tnrfv")
            items.append("\\" + c)
            out.add(CTRL[c])
    k = r.random()
    if k < 0.15 and not (items[-1].endswith("-") and len(items[-1]) > 1):
        items.append("-")
        out.add("-")
        ctx.ev("trailing hyphen")
    elif k < 0.25:
        items.insert(0, "-")
        out.add("-")
    elif k < 0.29 and items[0][0] not in "-^":
        items.insert(0, "--/")  # a range which starts at a hyphen
        out |= set("-./")
        ctx.ev("hyphen starts a range")
    if r.random() < 0.08:
        items.insert(r.randint(1, len(items)) if items[-1] != "-" else 1, "^")
        out.add("^")
    return "[" + ("^" if neg else "") + "".join(items) + "]", frozenset(al - out if neg else out), neg


def leaf(ctx, r, al, small):
    k = r.random()
    if k < 0.62:
        c = r.choice("ab" if small else PLAIN)
        return c, ("set", frozenset([c]))
    if k < 0.76:
        c = r.choice(META)
        ctx.ev("escape")
        return "\\" + c, ("set", frozenset([c]))
    if k < 0.84:
        c = r.choice("dswDSW" if not small else "ds")
        ctx.ev("escape")
        return "\\" + c, ("set", frozenset(CLASS[c] if c.islower() else al - CLASS[c.lower()]))
    if k < 0.88:
        c = r.choice("abfnrtv")
        return "\\" + c, ("set", frozenset([CTRL[c]]))
    s, chars, neg = class_text(ctx, r, al)
    ctx.ev("negated class" if neg else "class")
    return s, ("set", chars)


def bounds(ctx, r):
    """Text and value of a {...} quantifier."""
    sp = lambda: r.choice(["", "", "", " ", "  "])
    k = r.random()
    if r.random() < 0.12:
        m = r.choice([5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 25])
        n = r.choice([m, m + 1, m + 3])
        ctx.ev("large count")
        if k < 0.4:
            return "{%s%d%s}" % (sp(), m, sp()), m, m
        if k < 0.55:
            return "{%s%d%s,%s}" % (sp(), m, sp(), sp()), m, None
        if k < 0.7:
            return "{%s,%s%d%s}" % (sp(), sp(), m, sp()), 0, m
        m = r.choice([0, 1, m])
        return "{%s%d%s,%s%d%s}" % (sp(), m, sp(), sp(), n, sp()), m, n
    if k < 0.3:
        m = r.choice([0, 1, 2, 2, 3, 4])
        if m == 0:
            ctx.ev("m=0")
        return "{%s%d%s}" % (sp(), m, sp()), m, m
    if k < 0.5:
        m = r.choice([0, 1, 2, 3])
        ctx.ev("no upper bound")
        return "{%s%d%s,%s}" % (sp(), m, sp(), sp()), m, None
    if k < 0.6:
        n = r.choice([0, 1, 2, 3])
        ctx.ev("no lower bound")
        return "{%s,%s%d%s}" % (sp(), sp(), n, sp()), 0, n
    m = r.choice([0, 0, 1, 2])
    n = m + r.choice([0, 1, 1, 2, 3])
    if m == 0:
        ctx.ev("m=0")
    return "{%s%d%s,%s%d%s}" % (sp(), m, sp(), sp(), n, sp()), m, n


PREC = {"alt": 1, "cat": 2, "unary": 3, "atom": 4}


def make(ctx, r, al, size, small, depth=0):
    """(text, tree, precedence of the text, number of operators)"""
    if size <= 1:
        s, t = leaf(ctx, r, al, small)
        p, n = PREC["atom"], 0
    else:
        k = r.random()
        if k < 0.5:
            i = r.randint(1, size - 1)
            op = "cat" if r.random() < 0.6 else "alt"
            ctx.ev(op)
            s1, t1, p1, n1 = make(ctx, r, al, i, small, depth + 1)
            s2, t2, p2, n2 = make(ctx, r, al, size - i, small, depth + 1)
            if p1 < PREC[op]:
                s1 = f"({s1})"
            if p2 < PREC[op]:
                s2 = f"({s2})"
            s, t, p, n = s1 + ("|" if op == "alt" else "") + s2, (op, t1, t2), PREC[op], n1 + n2 + 1
        else:
            s1, t1, p1, n1 = make(ctx, r, al, size - 1, small, depth + 1)
            if t1[0] in ("star", "plus", "opt", "rep"):
                ctx.ev("nested quantifier")
            if p1 < PREC["unary"] or (p1 == PREC["unary"] and r.random() < 0.7):
                s1 = f"({s1})"
            elif p1 == PREC["unary"]:
                ctx.ev("ungrouped quantifiers")
            op = r.choice(["star", "plus", "opt", "opt", "rep", "rep"])
            ctx.ev(op)
            if op == "rep":
                q, m, nn = bounds(ctx, r)
                s, t = s1 + q, ("rep", t1, m, nn)
            else:
                s, t = s1 + {"star": "*", "plus": "+", "opt": "?"}[op], (op, t1)
            p, n = PREC["unary"], n1 + 1
    if r.random() < 0.05:
        s, p = f"({s})", PREC["atom"]
    return s, t, p, n


def positions(t):
    k = t[0]
    if k == "set":
        return 1
    if k == "eps":
        return 0
    if k in ("cat", "alt"):
        return positions(t[1]) + positions(t[2])
    if k == "rep":
        return positions(t[1]) * max(1, t[2] + 1 if t[3] is None else t[3])
    return positions(t[1])


# ------------------------------------------------------------ judging
def judge_nfa(ctx, g, D, what):
    w = difference_nfa_dfa(read_nfa(g), D, D.alphabet() | {"\x00"})
    ctx.expect(w is None, what, word=w, expected=None if w is None else D.accepts(w))
    ctx.ev("nfa")


def walks(r, D, k):
    """Words that mostly stay inside the language, and random ones."""
    al = sorted(D.alphabet())
    for _ in range(k):
        q, w = D.init, []
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            o = sorted(D.tr.get(q, {})) if q is not None else []
            a = r.choice(o) if o and r.random() < 0.9 else r.choice(al or ["a"])
            w.append(a)
            q = D.delta(q, a)
        yield "".join(w)


def expression(ctx):
    r = ctx.rng
    custom = r.random() < 0.4
    al = set(r.choice(["ab", "abc ", "ab01xyzAZ-_ ,:", "01", "ab-]^\\", "ab", "01", ""])) if custom else PRINTABLE
    small = r.random() < 0.7
    while True:
        s, t, _, n = make(ctx, r, al, r.choice([1, 2, 3, 4, 5, 6, 8, 10]), small)
        if positions(t) <= (40 if ctx.thorough else 30):
            break
    ctx.note(expression=s, tree=t, alphabet="".join(sorted(al)) if custom else "printable")
    D = ref_dfa(t)
    if D is None:
        ctx.ev("skipped: too large")
        return
    if custom:
        ctx.ev("custom alphabet" if al else "empty alphabet")
        arg = r.choice([lambda: al, lambda: "".join(sorted(al)), lambda: sorted(al), lambda: iter(sorted(al)), lambda: (a for a in al)])()
        g, q0, f = T.thompson_compile_nfa(s, arg)
        judge_nfa(ctx, g, D, "the NFA does not match the language of the expression")
        ctx.eq((set(g.initials), set(g.finals())), ({q0}, {f}), "initial and final states of the NFA")
    else:
        g = compile_nfa(s)
        judge_nfa(ctx, g, D, "the NFA does not match the language of the expression")
        big = D.n * len(D.alphabet()) * positions(t) > 12000 or D.n > 60
        if big:
            ctx.ev("dfa skipped: large")
    if not custom and not big:
        d = compile_dfa(s)
        E = gen.read_dfa(d)
        w = gen.difference(E, D)
        ctx.expect(w is None, "the DFA does not match the language of the expression", word=w)
        ctx.ev("dfa")
        ctx.eq((d.num_vertices(), d.num_edges()), (lambda m: (m.num_vertices(), m.num_edges()))(moore_determination(g, complete=False)), "the DFA has states or transitions no one asked for")
        for w in walks(r, D, 4):
            ctx.eq(bool(d.accepts(w)), D.accepts(w), "accepts() of the DFA", word=w)
        if r.random() < 0.3:
            c = compile_dfa(s, complete=True)
            w = gen.difference(gen.read_dfa(c), D)
            ctx.expect(w is None, "the complete DFA does not match the language of the expression", word=w)
            used = read_nfa(g).alphabet()
            for q in c.vertices():
                ctx.expect(all(c.delta(q, a) is not None for a in used), "a transition is missing in the complete DFA", q=q)
            ctx.ev("complete dfa")
    k = 0
    for w in walks(r, D, 6):
        ctx.eq(bool(g.accepts(w)), D.accepts(w), "accepts() of the NFA", word=w)
        ctx.ev("words run")
        k += D.accepts(w)
    if n >= 2 and k:
        ctx.nontrivial(s, custom)
    ctx.sample(expression=s)


def escaped(ctx):
    """re_escape: only the string itself matches."""
    r = ctx.rng
    pool = r.choice([META, META + "ab", string.printable, "aé雪\U0001f600" + META, "dswbn\\", "{}0123,", "[]-^a\\"])
    w = "".join(r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 14, 14, 30, 90] if ctx.i % 4 == 0 else [0, 1, 2, 3, 5, 8, 14])))
    s = re_escape(w)
    ctx.note(string=w, escaped=s)
    D = gen.Dfa(len(w) + 1, 0, {len(w)}, {i: {a: i + 1} for i, a in enumerate(w)})
    judge_nfa(ctx, compile_nfa(s), D, "the escaped string does not match exactly that string")
    d = compile_dfa(s)
    x = gen.difference(gen.read_dfa(d), D)
    ctx.expect(x is None, "the DFA of the escaped string does not match exactly that string", word=x)
    # inside a larger expression
    if w:
        D2 = gen.Dfa(len(w) + 1, 0, {0, len(w)}, {i: {a: i + 1} for i, a in enumerate(w)})
        D2.tr[len(w)] = {w[0]: 1}
        judge_nfa(ctx, compile_nfa(f"({s})*"), D2, "the starred escaped string matches something else than its powers")
    ctx.ev("escaped string")
    if len(w) > 2:
        ctx.nontrivial(w)


# ------------------------------------------------------------ operators on NFAs
def single(r):
    """Random NFA with one initial and one final state, edges into and out of them included."""
    n = r.randint(1, 4)
    al = ["a", "b", EPSILON]
    tr = {(r.randrange(n), r.randrange(n), r.choice(al)) for _ in range(r.randint(0, 2 * n))}
    q0, f = r.randrange(n), r.randrange(n)
    return RefNfa(n, {q0}, {f}, tr, EPSILON), q0, f


def copies(ref, parts):
    """Disjoint union of reference NFAs, with the offset of each."""
    tr, off, o = set(), [], 0
    for p in parts:
        off.append(o)
        tr |= {(q + o, s + o, a) for q, s, a in p.tr}
        o += p.n
    return tr, off, o


def chain_nfa(ref, q0, f, m, n):
    """{m,n} repetition of ref (n None: unbounded), made from fresh copies joined by epsilon moves between fresh states."""
    k = max(m, 1) if n is None else n
    tr, off, N = copies(ref, [ref] * k)
    joints = list(range(N, N + k + 1))
    end = N + k + 1
    for i in range(k):
        tr.add((joints[i], off[i] + q0, EPSILON))
        tr.add((off[i] + f, joints[i + 1], EPSILON))
    for i in range(m, k + 1):
        tr.add((joints[i], end, EPSILON))
    if n is None:
        tr.add((joints[k], joints[k - 1], EPSILON))
    return RefNfa(end + 1, {joints[0]}, {end}, tr, EPSILON)


def determinize(ref):
    start = frozenset(ref.close(ref.inits))
    ids, todo, tr = {start: 0}, [start], {}
    for S in todo:
        for a in ref.alphabet():
            Q = frozenset(ref.step(S, a))
            if not Q:
                continue
            if Q not in ids:
                ids[Q] = len(ids)
                todo.append(Q)
            tr.setdefault(ids[S], {})[a] = ids[Q]
    return gen.Dfa(len(ids), 0, {i for S, i in ids.items() if S & ref.finals}, tr)


def operators(ctx):
    r = ctx.rng
    A, qa, fa = single(r)
    eps = r.choice(["@", "", "eps"]) if r.random() < 0.25 else EPSILON  # the oracle keeps the default one

    def real(X):
        return build_nfa(X if eps == EPSILON else RefNfa(X.n, X.inits, X.finals, {(q, x, eps if a == EPSILON else a) for q, x, a in X.tr}, eps), Nfa, r)

    g = real(A)
    ctx.note(epsilon=eps)
    ctx.ev("other empty-move symbol", eps != EPSILON)
    op = r.choice(["insert_automaton", "concatenation", "alternation", "zero_or_one", "zero_or_more", "one_or_more", "repetition", "repetition_range"])
    ctx.note(op=op, nfa=A)
    if op == "insert_automaton":
        B, qb, fb = single(r)
        h = real(B)
        before = repr(read_nfa(h))
        given = {q: r.randrange(A.n) for q in r.sample(range(B.n), r.randint(0, B.n))}
        ctx.note(nfa2=B, map21=given)
        m = T.insert_automaton(g, h, dict(given)) if given else T.insert_automaton(g, h)
        ctx.eq(repr(read_nfa(h)), before, "the NFA inserted is altered")
        ctx.eq((set(m), {q: m[q] for q in given}), (set(range(B.n)), given), "mapping of the inserted states")
        new = [m[q] for q in range(B.n) if q not in given]
        ctx.eq((len(set(new)), set(new) | set(range(A.n)), len(new)), (len(new), set(g.vertices()), g.num_vertices() - A.n), "states after an insertion")
        want = {(q, x, a) for q, x, a in A.tr} | {(m[q], m[x], a) for q, x, a in B.tr}
        want = {(q, x, eps if a == EPSILON else a) for q, x, a in want}
        ctx.eq({(g.source(e), g.target(e), g.label(e)) for e in g.edges()}, want, "transitions after an insertion")
        ctx.eq(set(g.finals()), set(A.finals) | {m[q] for q in B.finals if q not in given}, "final states after an insertion")
        ctx.eq(set(g.initials), set(A.inits), "initial states after an insertion")
        ctx.ev("insertion")
        if given and new:
            ctx.nontrivial(op, repr(A), repr(B))
        return
    if op in ("concatenation", "alternation"):
        B, qb, fb = single(r)
        h = real(B)
        ctx.note(nfa2=B)
        before = repr(read_nfa(h))
        out, q0, f = getattr(T, op)(g, qa, fa, h, qb, fb)
        ctx.eq(repr(read_nfa(h)), before, "the second operand is altered")
        tr, (o1, o2), N = copies(A, [A, B])
        if op == "concatenation":
            ref = RefNfa(N, {o1 + qa}, {o2 + fb}, tr | {(o1 + fa, o2 + qb, EPSILON)}, EPSILON)
        else:
            ref = RefNfa(N + 2, {N}, {N + 1}, tr | {(N, o1 + qa, EPSILON), (N, o2 + qb, EPSILON), (o1 + fa, N + 1, EPSILON), (o2 + fb, N + 1, EPSILON)}, EPSILON)
    else:
        if op == "repetition":
            m = n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13]) if A.n < 3 else r.randint(0, 5)
            ctx.note(m=m)
            out, q0, f = T.repetition(g, qa, fa, m)
        elif op == "repetition_range":
            m = r.choice([0, 1, 2, 3, 5, 6, 9]) if A.n < 3 else r.randint(0, 3)
            n = r.choice([None, m, m + 1, m + 2, m + 4])
            ctx.note(m=m, n=n)
            out, q0, f = T.repetition_range(g, qa, fa, m, n)
        else:
            m, n = {"zero_or_one": (0, 1), "zero_or_more": (0, None), "one_or_more": (1, None)}[op]
            out, q0, f = getattr(T, op)(g, qa, fa)
        if n == 0:
            ref = RefNfa(1, {0}, {0}, set(), EPSILON)
        else:
            ref = chain_nfa(A, qa, fa, m, n)
            if m == 0 and n is None:
                ref.tr.add((A.n, A.n + 2, EPSILON))
    D = determinize(ref)
    judge_nfa(ctx, out, D, f"{op} does not build the expected language")
    ctx.eq((set(out.initials), set(out.finals())), ({q0}, {f}), "initial and final states of the NFA")
    ctx.ev("operator on NFA")
    if D.finals and D.edges():
        ctx.nontrivial(op, repr(A))


def parsing(ctx):
    """parse_repetition, parse_bracket, parse_escaped called directly."""
    r = ctx.rng
    s, m, n = bounds(ctx, r)
    ctx.note(text=s)
    ctx.eq(T.parse_repetition(s), (m, n), "parse_repetition")
    al = set(r.choice(["ab01 ", "abcxyz", string.printable, "a", "-", ""]))
    s, chars, neg = class_text(ctx, r, al)
    ctx.note(text=s, alphabet=sorted(al))
    got = T.parse_bracket(s, al)
    ctx.eq(set(got), set(chars), "parse_bracket")
    if r.random() < 0.3:
        # asked again, once the caller has changed what was returned
        if isinstance(got, set):
            got ^= {"a", "!"}
        ctx.eq(set(T.parse_bracket(s, al)), set(chars), "parse_bracket asked again")
    if al == PRINTABLE:
        ctx.eq(set(T.parse_bracket(s)), set(chars), "parse_bracket with the default alphabet")
    ctx.ev("class")
    c = r.choice("dswDSW")
    ctx.eq(set(T.parse_escaped("\\" + c, al)), CLASS[c] if c.islower() else al - CLASS[c.lower()], "parse_escaped", c=c)
    c = r.choice("abfnrtv")
    ctx.eq(set(T.parse_escaped("\\" + c)), {CTRL[c]}, "parse_escaped", c=c)
    for bad in ["{%d,%d}" % (n0 + 1, n0) for n0 in (0, r.randint(1, 20))]:
        ctx.raises(ValueError, lambda: T.parse_repetition(bad), "reversed bounds accepted", text=bad)
    ctx.nontrivial(s)


def epsilon(ctx):
    """The character used for empty moves, taken as an ordinary literal."""
    ctx.note(expression=EPSILON)
    g = compile_nfa(re_escape(EPSILON))
    if g.accepts("") and set(g.alphabet()) <= {EPSILON}:
        ctx.known("C07-epsilon-literal", "the expression \u03b5 matches the empty word instead of \u03b5")
    judge_nfa(ctx, g, gen.Dfa(2, 0, {1}, {0: {EPSILON: 1}}), "the expression \u03b5 does not match exactly itself")


def long(ctx):
    """Large counts, many alternatives, long chains, deep nesting."""
    r = ctx.rng
    L = lambda c: ("set", frozenset([c]))
    k = ctx.i % 8
    if k == 0:
        c, m = r.choice("ab"), r.choice([50, 101, 128, 256, 257, 300])
        s, t = r.choice([(f"{c}{{{m}}}", ("rep", L(c), m, m)), (f"{c}{{{m},}}", ("rep", L(c), m, None)), (f"{c}{{,{m}}}", ("rep", L(c), 0, m)), (f"{c}{{{m - 2},{m}}}", ("rep", L(c), m - 2, m)),
                         (f"(ab){{{m // 2}}}", ("rep", ("cat", L("a"), L("b")), m // 2, m // 2))])
    elif k == 1:
        ws = ["".join(r.choice("abc") for _ in range(r.randint(1, 6))) for _ in range(r.choice([20, 60, 120]))]
        s, t = "|".join(ws), None
        for w in ws:
            u = L(w[0])
            for c in w[1:]:
                u = ("cat", u, L(c))
            t = u if t is None else ("alt", t, u)
    elif k == 2:
        s, t = "", None
        for _ in range(r.choice([40, 100, 250])):
            c = r.choice("abc")
            q = r.choice(["", "", "", "?", "*", "+"]) if r.random() < 0.1 else ""
            u = {"": L(c), "?": ("opt", L(c)), "*": ("star", L(c)), "+": ("plus", L(c))}[q]
            s += c + q
            t = u if t is None else ("cat", t, u)
    elif k == 3:
        s, t = "a", L("a")
        for _ in range(r.choice([20, 60])):
            c = r.choice("ab")
            x = r.randrange(4)
            if x == 0:
                s, t = f"({s}){c}", ("cat", t, L(c))
            elif x == 1:
                s, t = f"{c}({s})", ("cat", L(c), t)
            elif x == 2:
                s, t = f"({s})", t
            else:
                s, t = f"({s}|{c})", ("alt", t, L(c))
    elif k == 4:
        # a negated class among many characters, quantified
        cs = "".join(r.sample(string.ascii_letters + string.digits, r.choice([10, 40, 60])))
        m = r.choice([1, 2, 12])
        neg = r.random() < 0.5
        s, t = f"[{'^' if neg else ''}{cs}]{{{m}}}", ("rep", ("set", frozenset(PRINTABLE - set(cs) if neg else cs)), m, m)
    elif k == 6:
        # many repetitions, each written in its own way
        s, t = "", None
        n = r.choice([20, 40, 80])
        for i in range(n):
            lo = r.randint(1, 2) if r.random() < 0.9 else 0
            hi = lo + r.choice([0, 0, 1])
            z, y = "0" * r.randint(0, 3), "0" * r.randint(0, 2)
            b = [" " * r.choice([0, 0, 1, 2]) for _ in range(4)]
            c = "abc"[i % 3]
            s += c + (f"{{{b[0]}{z}{lo}{b[1]}}}" if hi == lo and r.random() < 0.5 else f"{{{b[0]}{z}{lo}{b[1]},{b[2]}{y}{hi}{b[3]}}}")
            u = ("rep", L(c), lo, hi)
            t = u if t is None else ("cat", t, u)
    elif k == 7:
        # operands kept waiting one within another
        n, op = r.choice([20, 40, 90]), r.choice("|.")
        cs = [r.choice("abc") for _ in range(n)]
        t = L(cs[-1])
        for c in reversed(cs[:-1]):
            t = ("alt" if op == "|" else "cat", L(c), t)
        s = ("|(" if op == "|" else "(").join(cs) + ")" * (n - 1)
        if op == "|" and r.random() < 0.7:
            cs = [a + r.choice("abc") for a in cs]
            t = None
            for w in reversed(cs):
                u = ("cat", L(w[0]), L(w[1]))
                t = u if t is None else ("alt", u, t)
            s = "|(".join(cs) + ")" * (n - 1)
    else:
        # quantifiers above quantifiers
        c, m, n, p = r.choice("ab"), r.randint(2, 12), r.randint(2, 12), r.randint(1, 3)
        s, t = f"(({c}{{{m}}}){{{n}}}){{{p}}}", ("rep", ("rep", ("rep", L(c), m, m), n, n), p, p)
        if r.random() < 0.5:
            s, t = f"({s}b)?", ("opt", ("cat", t, L("b")))
    ctx.note(expression=s)
    D = ref_dfa(t)
    if D is None:
        ctx.ev("skipped: too large")
        return
    g = compile_nfa(s)
    judge_nfa(ctx, g, D, "the NFA does not match the language of the expression")
    for w in walks(r, D, 3):
        ctx.eq(bool(g.accepts(w)), D.accepts(w), "accepts() of the NFA", word=w)
    if k != 4 and (len(s) < 150 if k in (1, 2, 7) else D.n <= 40):
        w = gen.difference(gen.read_dfa(compile_dfa(s)), D)
        ctx.expect(w is None, "the DFA does not match the language of the expression", word=w)
        ctx.ev("dfa")
    ctx.ev("long expressions")
    ctx.nontrivial(s)


FAMILIES = [
    Fam("long", long, 240, 1500, cpu_s=60),
    Fam("expression", expression, 8000, 80000),
    Fam("escaped", escaped, 2400, 20000),
    Fam("operators", operators, 5000, 50000),
    Fam("parsing", parsing, 3000, 20000),
    Fam("epsilon", epsilon, 1, 1),
]
