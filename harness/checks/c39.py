"""C39: malformed expressions are refused."""
from pybgl.regexp import compile_dfa, compile_nfa
from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, shunting_yard_ast, shunting_yard_compute, tokenizer_alg

from ..core import Fam

ANCHORS = ["shunting_yard_postfix.py", "thompson_compile_nfa.py", "regexp.py", "tokenize.py"]
RULE = (
    "A case is a random well-formed regular or arithmetic expression, first accepted as it is, then damaged at one random place in a way that leaves it no meaning "
    "(parenthesis added or removed, operand missing, reversed bounds or range, bad braces, bad class, unknown escape, operator doubled, operand which is not a number); "
    "compiling or computing the damaged text must raise an error, and the good one is then accepted again. Non-trivial: every damaged text; distinct by text."
)
REQUIRED = ["unbalanced", "missing operand", "reversed bounds", "bad braces", "reversed range", "bad class", "bad escape", "regexp refused", "arithmetic refused",
            "accepted before", "accepted after", "not a number", "operator doubled"]
ASSUMPTIONS = [
    "lenient readings kept out: lone '}' or ']', repeated quantifiers, '[^]', '^', '$', operands side by side in arithmetic expressions",
]

ATOMS = ["a", "b", "0", " ", "\\+", "\\(", "\\)", "\\\\", "\\d", "\\n", "[ab]", "[a-c]", "[^a]", "[)(]", "[*\\]|]", "[\\[-\\]]"]


def tree(r, size):
    """Tokens of a well-formed regular expression, as (kind, text)."""
    if size <= 1:
        t = [("atom", r.choice(ATOMS))]
    else:
        k = r.randint(1, size - 1)
        t = tree(r, k) + ([("|", "|")] if r.random() < 0.4 else []) + tree(r, size - k)
    if size > 1 and r.random() < 0.6:
        t = [("(", "(")] + t + [(")", ")")]
    if len(t) == 1 or t[0][0] == "(" and t[-1][0] == ")" and closes(t):
        if r.random() < 0.35:
            m = r.randrange(3)
            t = t + [("q", r.choice(["*", "+", "?", "{%d}" % m, "{%d,%d}" % (m, m + r.randrange(3)), "{%d,}" % m, "{,%d}" % m]))]
    return t


def closes(t):
    """The first parenthesis is closed by the last one."""
    d = 0
    for k, (x, _) in enumerate(t):
        d += (x == "(") - (x == ")")
        if d == 0:
            return k == len(t) - 1
    return False


def text(t):
    return "".join(x for _, x in t)


def damage(ctx, r, t):
    """A text with no meaning, from the tokens of one which has."""
    atoms = [k for k, (x, _) in enumerate(t) if x == "atom"]
    pars = [k for k, (x, _) in enumerate(t) if x in "()"]
    kind = r.choice(["unbalanced", "unbalanced", "missing operand", "missing operand", "reversed bounds", "bad braces", "reversed range", "bad class", "bad escape"])
    ctx.ev(kind)
    t = list(t)
    at = r.choice(atoms)
    a = t[at][1]
    if kind == "unbalanced":
        if pars and r.random() < 0.5:
            del t[r.choice(pars)]
        else:
            n = r.choice([1, 1, 1, 2, 3])
            p = r.choice("()")
            for _ in range(n):
                t.insert(r.randint(0, len(t)), (p, p))
    elif kind == "missing operand":
        q = r.choice(["*", "+", "?", "{2}", "{0}", "{1,2}", "{,3}"])
        k = r.random()
        if k < 0.15:
            return "|" + text(t)
        if k < 0.3:
            return text(t) + "|"
        if k < 0.4:
            return q + text(t)
        t[at] = ("bad", r.choice(["()", "(|)", f"({a}|)", f"(|{a})", f"({a}||{a})", f"({q})", f"({q}{a})", f"({a}|{q})", f"(|{q})", f"({a}|{q}{a})", "(())", f"({a}()"+")"]))
    elif kind == "reversed bounds":
        m = r.choice([1, 2, 3, 9, 10, 11, 100])
        n = r.choice([0, m - 1, r.randrange(m)])
        sp = lambda: r.choice(["", "", " "])  # noqa: E731
        t[at] = ("bad", a + "{%s%d%s,%s%d%s}" % (sp(), m, sp(), sp(), n, sp()))
    elif kind == "bad braces":
        t[at] = ("bad", a + r.choice(["{", "{x}", "{-1}", "{1.5}", "{1,2,3}", "{,}", "{}", "{ }", "{1", "{1,", "{1;2}", "{a,b}", "{1,-2}", "{+1}"]))
    elif kind == "reversed range":
        lo, hi = sorted(r.sample("abcxyz0189AMZ!~", 2))
        pre, post = r.choice(["", "", "^", "k", "a-c", "\\d"]), r.choice(["", "", "k", "a-c", "\\d"])
        t[at] = ("bad", f"[{pre}{hi}-{lo}{post}]")
    elif kind == "bad class":
        k = r.random()
        if k < 0.3:
            return text(t) + "[" + r.choice(["", "a", "a-c", "^a", "\\d", "\\]"])
        t[at] = ("bad", r.choice(["[]", "[a-\\d]", "[\\q]", "[a-\\w]", "[\\x41]", "[\\A]", "[ab\\B]", "[^\\Z]"]))
    else:
        if r.random() < 0.2:
            return text(t) + "\\"
        t.insert(r.choice([at, at + 1]), ("bad", "\\" + r.choice("ABZxuUN0189qegzyP<>'-,; ")))
    return text(t)


def refused(ctx, f, s, what):
    ctx.ev("judgements")
    try:
        x = f(s)
    except (MemoryError, RecursionError):
        raise
    except Exception:
        ctx.ev(what)
        return
    ctx.fail("a malformed expression is accepted", expression=s, returned=x)


def regexps(ctx):
    r = ctx.rng
    t = tree(r, r.choice([1, 1, 2, 3, 4, 5]))
    good = text(t)
    ctx.note(good=good)
    before = compile_nfa(good)
    ctx.ev("accepted before")
    for _ in range(3):
        s = damage(ctx, r, t)
        refused(ctx, compile_nfa, s, "regexp refused")
        if r.random() < 0.3:
            refused(ctx, compile_dfa, s, "regexp refused")
        ctx.nontrivial(s)
    after = compile_nfa(good)
    ws = ["", "a", "b", "0", "ab", "aa", "a0", "(", " "]
    ctx.eq([bool(after.accepts(w)) for w in ws], [bool(before.accepts(w)) for w in ws], "a refused expression changes how the next one is read")
    ctx.ev("accepted after")


# ------------------------------------------------------------ arithmetic
def arith(r, size):
    if size <= 1:
        x = r.choice(["1", "2", "0.5", "10", "3"])
        return [("u", r.choice("+-")), ("n", x)] if r.random() < 0.2 else [("n", x)]
    k = r.randint(1, size - 1)
    t = arith(r, k) + [("op", r.choice("+-*+-"))] + arith(r, size - k)
    return [("(", "(")] + t + [(")", ")")] if r.random() < 0.5 else t


def damage_arith(ctx, r, t):
    t = list(t)
    nums = [k for k, (x, _) in enumerate(t) if x == "n"]
    pars = [k for k, (x, _) in enumerate(t) if x in "()"]
    opers = [k for k, (x, _) in enumerate(t) if x == "op"]
    k = r.random()
    at = r.choice(nums)
    if k < 0.35:
        ctx.ev("unbalanced")
        if pars and r.random() < 0.5:
            del t[r.choice(pars)]
        else:
            p = r.choice("()")
            for _ in range(r.choice([1, 1, 2])):
                t.insert(r.randint(0, len(t)), (p, p))
    elif k < 0.55:
        ctx.ev("missing operand")
        if r.random() < 0.4:
            return text(t) + r.choice("+-*/^")
        t[at] = ("bad", r.choice(["()", "(())", "(-)", "(+)"]))
    elif k < 0.75:
        ctx.ev("operator doubled")
        o = r.choice("*/^")
        if opers and r.random() < 0.7:
            t.insert(r.choice(opers) + 1, ("bad", o))
        else:
            return r.choice(["", "(", "-"]) + o + text(t)
    else:
        ctx.ev("not a number")
        t[at] = ("bad", r.choice(["a", "1.2.3", "1,2", "x1", "1x", "1=2", "[1]", "0x", ".", "1..2", "one"]))
    return text(t)


def ast(s):
    return shunting_yard_ast(tokenizer_alg(s), MAP_OPERATORS_ALG)


def arithmetic(ctx):
    r = ctx.rng
    t = arith(r, r.choice([1, 2, 3, 4, 6]))
    good = text(t)
    ctx.note(good=good)
    v = shunting_yard_compute(good)
    ctx.ev("accepted before")
    for _ in range(3):
        s = damage_arith(ctx, r, t)
        refused(ctx, shunting_yard_compute, s, "arithmetic refused")
        refused(ctx, ast, s, "arithmetic refused")
        ctx.nontrivial(s)
    ctx.eq(shunting_yard_compute(good), v, "a refused expression changes how the next one is read")
    ctx.ev("accepted after")


FAMILIES = [
    Fam("regexps", regexps, 16000, 480000),
    Fam("arithmetic", arithmetic, 8000, 240000),
]
