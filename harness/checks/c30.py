"""C30: infix to postfix, evaluation and syntax trees against Python's parser and a precedence-climbing parser."""
import ast as pyast
import re
from collections import defaultdict, deque

from pybgl.shunting_yard_postfix import (
    LEFT, MAP_OPERATORS_ALG, MAP_OPERATORS_RE, RIGHT, Ast, DefaultShuntingYardVisitor, Op, RpnDequeAlg, RpnDequeAst, RpnDequeOperation, catify, shunting_yard_ast,
    shunting_yard_compute, shunting_yard_postfix, tokenizer_alg, tokenizer_re)
from pybgl.property_map import make_assoc_property_map
from pybgl.tokenize import TokenizeVisitor, tokenize

from .. import gen
from ..core import Fam

ANCHORS = ["shunting_yard_postfix.py", "tokenize.py"]
RULE = (
    "A case is a well-formed arithmetic expression, whose tokens, postfix form, value and syntax trees are compared with the tree Python's parser gives; or an expression over a random operator table "
    "(precedences, associativities, prefix, postfix and binary operators) compared with a precedence-climbing parser; or a postfix sequence over operators of 0 to 4 operands; or a string split by a token pattern. "
    "Non-trivial: at least 3 operators; distinct by expression."
)
REQUIRED = ["expressions", "unary plus", "unary minus", "power of a negative", "parentheses", "left chains", "right chains", "trees", "values", "errors agreed", "given tokens", "visitors", "printed back",
            "random tables", "postfix operators", "prefix operators", "tables printed back", "own symbol map", "plain queue", "regexp trees", "explicit concatenation", "regexp printed back", "no tree to print",
            "tokenized strings", "matched pieces", "unmatched pieces", "beyond the recursion limit", "operators of 3 operands or more", "printed from another root"]
ASSUMPTIONS = ["numbers are unsigned decimals without exponent sign", "operators of one level share their associativity; postfix operators bind tighter than all others and prefix ones share the level of left-associative operators only"]

BIN = {pyast.Add: "+", pyast.Sub: "-", pyast.Mult: "*", pyast.Div: "/", pyast.Pow: "^"}


def tree_of(s):
    """The tree of an arithmetic expression, by Python's own parser."""
    def go(n):
        if isinstance(n, pyast.BinOp):
            return (BIN[type(n.op)], go(n.left), go(n.right))
        if isinstance(n, pyast.UnaryOp):
            return ("u-" if isinstance(n.op, pyast.USub) else "u+", go(n.operand))
        return (float(n.value),)
    return go(pyast.parse(s.replace("^", "**").strip(), mode="eval").body)


def postorder(t):
    out, todo = [], [t]
    while todo:
        n = todo.pop()
        out.append(n[0])
        todo += n[1:]
    return out[::-1]


def value(t):
    if len(t) == 1:
        return t[0]
    v = [value(c) for c in t[1:]]
    o = t[0]
    if o == "u-":
        return -v[0]
    if o == "u+":
        return +v[0]
    x, y = v
    return x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y if o == "/" else x ** y


def number(r):
    return r.choice(["0", "1", "2", "3", "7", "12", "0.5", "2.25", ".5", "10.", "100", "3.125", "1e2"])


def expression(r, depth):
    """A random well-formed expression as a list of tokens."""
    out = []

    def operand(d):
        while r.random() < 0.2:
            out.append(r.choice("+--"))
        if d > 0 and r.random() < 0.35:
            out.append("(")
            expr(d - 1)
            out.append(")")
        else:
            out.append(number(r))

    def expr(d):
        operand(d)
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            out.append(r.choice("++--**//^^"))
            operand(d)

    expr(depth)
    return out


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, complex) or isinstance(b, complex):
        return a == b or (a != a and b != b) or repr(a) == repr(b)
    return a == b


def outcome(f):
    try:
        return ("value", f())
    except (ZeroDivisionError, OverflowError) as e:
        return ("error", type(e).__name__)


def read_from(g, u):
    return (g.symbol(u),) + tuple(read_from(g, v) for v in g.children(u))


def read_ast(g, root):
    """Reads a pybgl Ast as nested tuples (operands in order), checking that it is a tree."""
    kids = {u: list(g.children(u)) for u in g.vertices()}
    seen = []

    def go(u):
        seen.append(u)
        return (g.symbol(u),) + tuple(go(v) for v in kids[u])

    t = go(root)
    return t, len(seen) == len(set(seen)) == g.num_vertices() == g.num_edges() + 1


class Rec(DefaultShuntingYardVisitor):
    def __init__(self):
        self.out, self.stack, self.bad = [], [], None

    def on_push_output(self, a):
        self.out.append(a)

    def on_push_operator(self, o):
        self.stack.append(o)

    def on_pop_operator(self, o):
        if not self.stack or self.stack[-1] != o:
            self.bad = o
        else:
            self.stack.pop()


def arithmetic(ctx):
    r = ctx.rng
    toks = expression(r, r.choice([0, 1, 2, 4]))
    s = "".join((" " * r.choice([0, 0, 1, 2])) + t for t in toks) + r.choice(["", " "])
    if r.random() < 0.2:
        s = s.replace(" ", "\t")
    ctx.note(expression=s)
    t = tree_of("".join(toks))
    # tokens
    want, prev = [], True
    for a in toks:
        if a in "()":
            want.append(a)
            prev = a == "("
        elif a in "+-*/^":
            want.append(("u" + a) if prev else a)
            prev = True
        else:
            want.append(float(a))
            prev = False
    got = list(tokenizer_alg(s))
    ctx.eq(got, want, "tokens")
    # postfix
    vis = Rec() if r.random() < 0.5 else None
    out = shunting_yard_postfix(iter(got) if r.random() < 0.3 else got, MAP_OPERATORS_ALG, vis=vis)
    post = postorder(t)
    ctx.eq(list(out), post, "postfix form")
    if vis:
        ctx.eq((vis.out, vis.stack, vis.bad), (post, [], None), "events of the visitor (output, stack left, wrong pop)")
    # value
    v = outcome(lambda: value(t))
    for what, f in (
        ("shunting_yard_compute", lambda: shunting_yard_compute(s)),
        ("shunting_yard_compute of tokens", lambda: shunting_yard_compute(list(got), tokenize=False)),
        ("RpnDequeAlg", lambda: only(ctx, shunting_yard_postfix(tokenizer_alg(s), MAP_OPERATORS_ALG, output=RpnDequeAlg(map_operators=MAP_OPERATORS_ALG)))),
        ("postfix fed to RpnDequeAlg", lambda: feed(ctx, out)),
    ):
        x = outcome(f)
        ctx.expect(x[0] == v[0] and same(x[1], v[1]), f"value by {what}", actual=x, expected=v)
        ctx.ev("values")
    if v[0] != "error" and r.random() < 0.3:
        v1, v2 = Rec(), Rec()
        shunting_yard_compute(s, vis=v1)
        shunting_yard_ast(list(got), MAP_OPERATORS_ALG, v2)
        for x in (v1, v2):
            ctx.eq((x.out, x.stack, x.bad), (post, [], None), "events of the visitor given to shunting_yard_compute or shunting_yard_ast")
        ctx.ev("visitors")
    ctx.ev("given tokens")
    ctx.ev("errors agreed", int(v[0] == "error"))
    # trees
    a, root = shunting_yard_ast(tokenizer_alg(s), MAP_OPERATORS_ALG)
    tree, ok = read_ast(a, root)
    ctx.eq(tree, t, "syntax tree")
    ctx.expect(ok, "the syntax tree is not a tree, or has nodes apart")
    g2 = Ast()
    root2 = only(ctx, shunting_yard_postfix(tokenizer_alg(s), MAP_OPERATORS_ALG, output=RpnDequeAst(map_operators=MAP_OPERATORS_ALG, ast=g2)))
    ctx.eq(read_ast(g2, root2), (t, True), "syntax tree by RpnDequeAst")
    ctx.ev("trees", 2)
    back = a.to_expr()
    ctx.eq(tree_of(back), t, "the expression printed from the tree is another one", printed=back)
    ctx.ev("printed back")
    # from another node, by making it the root
    for _ in range(min(2, len(t) - 1)):
        a.root = u = r.choice(sorted(a.vertices()))
        back = a.to_expr()
        ctx.eq(tree_of(back), read_from(a, u), "the expression printed from a node made the root is another one", printed=back, node=u)
        ctx.ev("printed from another root")
    ops = [x for x in post if isinstance(x, str)]
    ctx.ev("expressions")
    ctx.ev("unary plus", ops.count("u+"))
    ctx.ev("unary minus", ops.count("u-"))
    ctx.ev("parentheses", toks.count("("))
    ctx.ev("power of a negative", len(re.findall(r"\^[+-]", "".join(toks))))
    ctx.ev("left chains", len(re.findall(r"[-/][\d.]+[-/][\d.]+", "".join(toks))))
    ctx.ev("right chains", len(re.findall(r"\^[\d.]+\^", "".join(toks))))
    if len(ops) >= 3:
        ctx.nontrivial("".join(toks))
    ctx.sample(expression=s, postfix=post)


def only(ctx, out):
    ctx.eq(len(out), 1, "number of results left")
    return out.pop()


def feed(ctx, out):
    q = RpnDequeAlg()
    for a in out:
        q.append(a)
    return only(ctx, q)


# ---------------------------------------------------------------- random operator tables
def table(r):
    """{token: Op}; one associativity per level."""
    levels = r.randint(1, 4)
    ops, kind = {}, {}
    names = iter("+-*/^&|<>=~!@#$%?:;")
    for lvl in range(1, levels + 1):
        assoc = r.choice([LEFT, LEFT, RIGHT])
        for _ in range(r.randint(1, 2)):
            a = next(names)
            ops[a], kind[a] = Op(cardinality=2, precedence=lvl, associativity=assoc), "binary"
        if assoc == LEFT and r.random() < 0.5:
            a = r.choice(["u", ""]) + next(names)
            ops[a], kind[a] = Op(cardinality=1, precedence=lvl, associativity=RIGHT), "prefix"
    for _ in range(r.randint(0, 2)):
        a = r.choice(["p", ""]) + next(names)
        ops[a], kind[a] = Op(cardinality=1, precedence=levels + 1, associativity=LEFT), "postfix"
    if r.random() < 0.3:
        a = r.choice(["u", ""]) + next(names)
        # tighter than every binary operator
        ops[a], kind[a] = Op(cardinality=1, precedence=levels + 1, associativity=RIGHT), "prefix"
        for b in kind:
            if kind[b] == "postfix":
                ops[b] = ops[b]._replace(precedence=levels + 2)
    return ops, kind


def climb(toks, ops, kind):
    """Precedence climbing over a list of tokens."""
    pos = 0

    def primary():
        nonlocal pos
        a = toks[pos]
        pos += 1
        if a == "(":
            t = parse(0)
            assert toks[pos] == ")"
            pos += 1
        elif kind.get(a) == "prefix":
            t = (a, parse(ops[a].precedence + 1))
            return t
        else:
            t = (a,)
        while pos < len(toks) and kind.get(toks[pos]) == "postfix":
            t = (toks[pos], t)
            pos += 1
        return t

    def parse(low):
        nonlocal pos
        t = primary()
        while pos < len(toks) and kind.get(toks[pos]) == "binary" and ops[toks[pos]].precedence >= low:
            a = toks[pos]
            pos += 1
            t = (a, t, parse(ops[a].precedence + (1 if ops[a].associativity == LEFT else 0)))
        return t

    t = parse(0)
    assert pos == len(toks), (pos, toks)
    return t


def tables(ctx):
    r = ctx.rng
    ops, kind = table(r)
    B = [a for a in ops if kind[a] == "binary"]
    P = [a for a in ops if kind[a] == "prefix"]
    S = [a for a in ops if kind[a] == "postfix"]
    toks, count = [], [0]

    def operand(d):
        while P and r.random() < 0.3:
            toks.append(r.choice(P))
        if d and r.random() < 0.3:
            toks.append("(")
            expr(d - 1)
            toks.append(")")
        else:
            count[0] += 1
            toks.append(r.choice([f"x{count[0]}", count[0], float(count[0])]))
        while S and r.random() < 0.3:
            toks.append(r.choice(S))

    def expr(d):
        operand(d)
        for _ in range(r.choice([0, 1, 2, 4])):
            toks.append(r.choice(B))
            operand(d)

    expr(r.choice([0, 1, 3]))
    ctx.note(table=ops, tokens=toks)
    t = climb(toks, ops, kind)
    own = deque() if r.random() < 0.5 else None
    out = shunting_yard_postfix(list(toks), ops, output=own)
    ctx.expect(own is None or out is own, "the output given is not the one returned")
    ctx.eq(list(out), postorder(t), "postfix form")
    a, root = shunting_yard_ast(list(toks), ops)
    ctx.eq(read_ast(a, root), (t, True), "syntax tree")
    if not any(kind.get(x) == "prefix" for x in toks):
        back = a.to_expr()
        rx = re.compile("|".join([r"x\d+", r"\d+\.\d+", r"\d+"] + [re.escape(x) for x in sorted(ops, key=len, reverse=True)] + [r"[()]"]))
        toks2 = rx.findall(back)
        ctx.eq("".join(toks2), back, "the expression printed from the tree has other tokens", printed=back)
        text = lambda n: (str(n[0]),) + tuple(text(c) for c in n[1:])  # noqa: E731
        ctx.eq(climb(toks2, ops, kind), text(t), "the expression printed from the tree is another one", printed=back)
        ctx.ev("tables printed back")
    # a tree whose symbols are kept in the caller's map, a queue which computes nothing
    mine = defaultdict()
    g2 = Ast(pmap_vsymbol=make_assoc_property_map(mine))
    root2 = only(ctx, shunting_yard_postfix(list(toks), ops, output=RpnDequeAst(map_operators=ops, ast=g2)))
    ctx.eq(read_ast(g2, root2), (t, True), "syntax tree in the caller's map")
    ctx.eq(dict(mine), {u: g2.symbol(u) for u in g2.vertices()}, "symbols in the caller's map")
    ctx.ev("own symbol map")
    ctx.raises(RuntimeError, g2.to_expr, "an expression is printed from a tree without root")
    ctx.ev("no tree to print")
    q = RpnDequeOperation(map_operators=ops)
    for x in out:
        q.append(x)
    ctx.eq(list(q), [t[0]], "a plain queue does not consume the operands")
    ctx.ev("plain queue")
    ctx.ev("random tables")
    ctx.ev("postfix operators", sum(kind.get(x) == "postfix" for x in toks))
    ctx.ev("prefix operators", sum(kind.get(x) == "prefix" for x in toks))
    if sum(x in ops for x in toks) >= 3:
        ctx.nontrivial(ops, toks)


# ---------------------------------------------------------------- trees of regular expressions
RE_ATOMS = ["a", "b", "0", " ", "-", "[ab]", "[^a-c]", "[)(]", "[*.|]", "\\d", "\\+", "\\(", "\\.", "\\\\", "[\\]]"]
LEVEL = {"|": 1, ".": 2, "*": 4, "+": 4, "?": 4}


def re_tree(r, size):
    if size <= 1:
        return (r.choice(RE_ATOMS),)
    if r.random() < 0.4:
        return (r.choice("*+?"), re_tree(r, size - 1))
    k = r.randint(1, size - 1)
    return (r.choice("..|"), re_tree(r, k), re_tree(r, size - k))


def re_tokens(r, t):
    """Tokens with explicit concatenations."""
    if len(t) == 1:
        out, lvl = [t[0]], 5
    elif len(t) == 2:
        out, lvl = wrap(r, t[1], 4) + [t[0]], 4
    else:
        lvl = LEVEL[t[0]]
        out = wrap(r, t[1], lvl) + [t[0]] + wrap(r, t[2], lvl)
    return ["("] + out + [")"] if r.random() < 0.08 else out


def wrap(r, t, low):
    lvl = 5 if len(t) == 1 else LEVEL[t[0]]
    out = re_tokens(r, t)
    return ["("] + out + [")"] if lvl < low else out


def flat(t):
    """Concatenations and alternatives are associative."""
    if len(t) < 3:
        return (t[0],) + tuple(flat(c) for c in t[1:])
    kids = []
    for c in map(flat, t[1:]):
        kids += c[1:] if c[0] == t[0] and len(c) > 2 else [c]
    return (t[0],) + tuple(kids)


def regexp_trees(ctx):
    r = ctx.rng
    t = re_tree(r, r.choice([1, 2, 3, 5, 8]) if ctx.i % 20 else r.choice([30, 80, 200]))
    toks = re_tokens(r, t)
    s = "".join(x for x in toks if x != ".")
    ctx.note(expression=s)
    ctx.eq(list(tokenizer_re(s)), toks, "tokens")
    ctx.eq(list(catify(s)), toks, "tokens with the default concatenation sign")
    ctx.eq(list(catify(s, "&")), ["&" if x == "." else x for x in toks], "tokens with another concatenation sign")
    ctx.eq(list(tokenizer_re("".join(toks), cat=None)), toks, "tokens of an expression with explicit concatenations")
    ctx.ev("explicit concatenation")
    vis = Rec()
    out = list(shunting_yard_postfix(toks, MAP_OPERATORS_RE, vis=vis))
    ctx.eq((vis.out, vis.stack, vis.bad), (out, [], None), "events of the visitor (output, stack left, wrong pop)")
    a, root = shunting_yard_ast(iter(toks), MAP_OPERATORS_RE)
    tree, ok = read_ast(a, root)
    ctx.expect(ok, "the syntax tree is not a tree, or has nodes apart")
    ctx.eq(flat(tree), flat(t), "syntax tree")
    ctx.eq(out, postorder(tree), "postfix form")
    ctx.ev("regexp trees")
    back = a.to_expr()
    b, root2 = shunting_yard_ast(tokenizer_re(back, cat=None), MAP_OPERATORS_RE)
    ctx.eq(flat(read_ast(b, root2)[0]), flat(t), "the expression printed from the tree is another one", printed=back)
    ctx.ev("regexp printed back")
    if sum(x in LEVEL for x in toks) >= 3:
        ctx.nontrivial(s)


# ---------------------------------------------------------------- tokenize
PATTERNS = ["a", "ab|b", "[0-9]+", r"\s", "a|b|ab", "(a)(b)?", "x*", "", "^a", "a$", r"\b", "é+", "(?=b)", r"\.", "a{2,3}", "a+?"]


def pieces(ctx):
    r = ctx.rng
    pat = r.choice(PATTERNS)
    s = "".join(r.choice("aab b12.é\n") for _ in range(r.randint(0, 14)))
    ctx.note(pattern=pat, string=s)
    log = []

    class V(TokenizeVisitor):
        def on_matched(self, x, start, end, t):
            log.append(("m", x, start, end, t))

        def on_unmatched(self, x, start, end, t):
            log.append(("u", x, start, end, t))

    rx = re.compile(pat)
    tokenize(rx, s, V())
    ctx.eq("".join(x[1] for x in log), s, "the pieces do not restore the string", pieces=log)
    at = 0
    for k, x, start, end, t in log:
        ctx.eq(t, s, "string given with a piece")
        ctx.expect(x != "", "an empty piece was reported", pieces=log)
        ctx.eq((start, s[start:end]), (at, x), "position of a piece", pieces=log)
        at += len(x)
    ctx.eq([x for k, x, *_ in log if k == "m"], [m.group(0) for m in rx.finditer(s) if m.group(0)], "matched pieces")
    tokenize(rx, s)
    ctx.ev("tokenized strings")
    ctx.ev("matched pieces", sum(x[0] == "m" for x in log))
    ctx.ev("unmatched pieces", sum(x[0] == "u" for x in log))
    if len(log) >= 3:
        ctx.nontrivial(pat, s)


def deep(ctx):
    r = ctx.rng
    n = r.randint(1500, 3000)
    m = ctx.i % 4
    ctx.note(kind=m, n=n)
    if m == 3:
        # a long chain: as many tokens, written with explicit concatenations
        toks = [x for k in range(n) for x in (r.choice(RE_ATOMS), ".")][:-1]
        ctx.eq(list(tokenizer_re("".join(toks), cat=None)), toks, "tokens of a long expression with explicit concatenations")
    if m == 0:
        s, v = "(" * n + "1" + "+1)" * n, n + 1
    elif m == 1:
        s, v = "1-(" * n + "1" + ")" * n, 1 - n % 2
    elif m == 2:
        s, v = "-" * n + "5", 5 if n % 2 == 0 else -5
    else:
        s, v = "1" + "-1" * n, 1 - n
    ctx.eq(shunting_yard_compute(s), float(v), "value of a deep expression")
    a, root = shunting_yard_ast(tokenizer_alg(s), MAP_OPERATORS_ALG)
    ctx.eq(a.num_vertices(), a.num_edges() + 1, "size of a deep tree")
    ctx.ev("beyond the recursion limit")


WIDE = [0, 1, 2, 3, 4, 20, 70]


def arities(ctx):
    """Postfix sequences over operators of 0 to 70 operands, fed to the queues directly."""
    r = ctx.rng
    ops = {f"{c}o{k}": Op(cardinality=c, precedence=r.randint(1, 3), associativity=r.choice([LEFT, RIGHT])) for c in WIDE for k in range(2)}

    def tree(d):
        if not d or r.random() < 0.15:
            return (r.choice(["x", "y", 3, 2.5]),)
        c = r.choice([0, 1, 2, 2, 3, 3, 4] if d < 3 else WIDE[2:])
        return (f"{c}o{r.randrange(2)}",) + tuple(tree(d - 1) for _ in range(c))

    ts = [tree(r.randint(1, 3)) for _ in range(r.choice([1, 1, 2, 3]))]
    ctx.note(operators=ops, trees=ts)

    class Own(RpnDequeOperation):
        def on_operation(self, a, op, u, vs):
            ctx.expect(op is ops[a] and u == (a,), "operator given with the operands", got=(a, op, u))
            return (a,) + tuple(vs)

        def on_append(self, a):
            return (a,)

    own, plain, asts = Own(ops), RpnDequeOperation(map_operators=ops), RpnDequeAst(map_operators=ops, ast=Ast())
    nodes = 0
    for k, t in enumerate(ts):
        for x in postorder(t):
            own.append(x)
            plain.append(x)
            asts.append(x)
            nodes += 1
        ctx.eq(list(own), ts[:k + 1], "operations made by a queue of one's own")
        ctx.eq(list(plain), [t[0] for t in ts[:k + 1]], "a plain queue consumes as many operands as the operator has")
        ctx.eq([read_ast(asts.ast, u)[0] for u in asts], ts[:k + 1], "trees grown by the queue")
        ctx.eq((asts.ast.num_vertices(), asts.ast.num_edges()), (nodes, nodes - k - 1), "size of the trees")
    ctx.ev("operators of 3 operands or more", sum(str(x)[0] in "34" for t in ts for x in postorder(t) if x in ops))
    if nodes >= 4:
        ctx.nontrivial(repr(ts))


FAMILIES = [
    Fam("arities", arities, 3200, 64000),
    Fam("arithmetic", arithmetic, 20000, 400000),
    Fam("tables", tables, 16000, 320000),
    Fam("regexp trees", regexp_trees, 8000, 160000),
    Fam("pieces", pieces, 8000, 120000),
    Fam("deep", deep, 16, 80),
]
