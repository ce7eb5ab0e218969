"""C41: closed operators and order relations."""
import functools
import math
from fractions import Fraction

from pybgl import algebra
from pybgl.algebra import INFINITY, BinaryRelation, ClosedMax, ClosedMin, ClosedOperator, ClosedPlus, ClosedTime, GreaterThan, Less

from ..core import Fam

ANCHORS = ["algebra.py"]
RULE = (
    "A case is one of the four closed operators, an absorbing element (default, finite, infinite, fraction, negative, zero, word, tuple) and operands drawn around it "
    "(the element itself, an equal value of another type or another object, values next to it, ordinary values); each result is compared with the plain operation, or with the "
    "absorbing element as soon as an operand equals it, and folds, commutativity and associativity follow. Or it is a pair compared by an order relation. "
    "Non-trivial: both an absorbed and an ordinary result were seen; distinct by operator, element and operands."
)
KINDS = ["plus", "time", "max", "min"]
REQUIRED = [f"{k} {e}" for k in KINDS for e in ("absorbed left", "absorbed right", "absorbed both", "ordinary", "default element", "fold", "associative")] + [
    "equal but another object", "equal but another type", "next to the element", "words", "tuples", "less", "greater", "equal", "custom operator", "base classes", "two operators"]
CLS = {"plus": ClosedPlus, "time": ClosedTime, "max": ClosedMax, "min": ClosedMin}
OPS = {"plus": lambda x, y: x + y, "time": lambda x, y: x * y, "max": lambda x, y: x if x >= y else y, "min": lambda x, y: x if x <= y else y}
DEFAULT = {"plus": INFINITY, "time": INFINITY, "max": INFINITY, "min": 0}


def domain(r, k):
    """(absorbing element or None for the default, generator of operands)"""
    kind = r.choice(["default", "default", "int", "big", "float", "inf", "fraction", "word", "tuple"])
    if k == "time" and kind in ("word", "tuple"):
        kind = "int"
    near = lambda a: [a, a - 1, a + 1, -a, a * 2]  # noqa: E731
    if kind == "default":
        a = DEFAULT[k]
        return kind, None, near(a) + [0, 1, 2, 5, -1, 0.5, 1.0, float(a), Fraction(a), Fraction(1, 3)]
    if kind == "int":
        a = r.choice([0, 1, -1, 7, 100, 255, 256, 257])
        return kind, a, near(a) + [0, 1, 2, 3, float(a), Fraction(a), True, False, 0.5]
    if kind == "big":
        a = 10 ** r.choice([9, 18, 19, 30])
        return kind, a, near(a) + [0, 1, 2, int(str(a)), Fraction(a)]
    if kind == "float":
        a = r.choice([0.0, 1.0, 0.5, 1e9, -2.0])
        return kind, a, near(a) + [math.nextafter(a, math.inf), math.nextafter(a, -math.inf), 0.25, 3.0, int(a) if a == int(a) else 1, 0, 1, -0.0]
    if kind == "inf":
        a = r.choice([math.inf, -math.inf])
        xs = [a, float(str(a)), 1.0, 2, 1e308, -1e308, INFINITY, 5] + ([0.0, -a] if k in ("max", "min") else [])
        return kind, a, xs
    if kind == "fraction":
        a = Fraction(r.randint(0, 4), r.randint(1, 4))
        return kind, a, near(a) + [Fraction(1, 2), Fraction(0), 1, 2, float(a) if a.denominator in (1, 2, 4) else Fraction(5, 7), Fraction(a.numerator * 3, a.denominator * 3)]
    if kind == "word":
        return kind, r.choice(["", "a", "zz", "ab"]), ["", "a", "b", "ab", "zz", "a" * 5, "".join(["z", "z"]), "aa", "B"]
    return kind, r.choice([(), (0,), (1, 2)]), [(), (0,), (1, 2), (1,), (1, 2, 3), tuple([1, 2]), (2,)]


def same(a, b):
    return a == b or (a != a and b != b)


def operators(ctx):
    r = ctx.rng
    k = KINDS[ctx.i % 4]
    kind, a, xs = domain(r, k)
    cls, plain = CLS[k], OPS[k]
    if a is None:
        op, a = cls(), DEFAULT[k]
        ctx.ev(k + " default element")
    else:
        op = cls(a) if r.random() < 0.5 else cls(absorbing=a)
    if kind in ("word", "tuple"):
        ctx.ev(kind + "s")
    ctx.note(operator=k, absorbing=a, operands=xs)
    want = lambda x, y: a if x == a or y == a else plain(x, y)  # noqa: E731
    seen = set()
    for _ in range(20):
        x, y = r.choice(xs), r.choice(xs)
        if r.random() < 0.2:
            x = a
        got = op(x, y)
        ctx.expect(same(got, want(x, y)), "result of a closed operator", x=x, y=y, returned=got, expected=want(x, y))
        ctx.expect(same(op(y, x), got) or kind in ("word", "tuple") and k == "plus", "a closed operator is not commutative", x=x, y=y, returned=(got, op(y, x)))
        e = "absorbed both" if x == a and y == a else "absorbed left" if x == a else "absorbed right" if y == a else "ordinary"
        ctx.ev(f"{k} {e}")
        seen.add(e == "ordinary")
        for z in (x, y):
            if z == a and z is not a:
                ctx.ev("equal but another type" if type(z) is not type(a) else "equal but another object")
            elif kind in ("int", "default") and isinstance(z, int) and abs(z - a) == 1:
                ctx.ev("next to the element")
    # folds: the element swallows everything whatever its place
    ws = [r.choice(xs) for _ in range(r.randint(2, 5))]
    if r.random() < 0.6:
        ws.insert(r.randint(0, len(ws)), a)
    got = functools.reduce(op, ws)
    ctx.expect(same(got, functools.reduce(want, ws)), "folding a closed operator", operands=ws, returned=got)
    if a in ws:
        ctx.expect(same(got, a), "the absorbing element is lost in a fold", operands=ws, returned=got)
    ctx.ev(k + " fold")
    if k in ("max", "min") or all(isinstance(w, (int, Fraction)) for w in ws) and a not in (plain(x, y) for x in ws for y in ws):
        x, y, z = (ws * 2)[:3]
        p, q = op(op(x, y), z), op(x, op(y, z))
        if k in ("plus", "time") or DEFAULT[k] == a or a in (math.inf, -math.inf):
            if k in ("max", "min") and not (a >= max(xs) if k == "max" else a <= min(xs)):
                pass  # an element which is not extremal does not make the operation associative
            elif k in ("plus", "time") and a in (plain(x, y), plain(y, z)):
                pass
            else:
                ctx.expect(same(p, q), "a closed operator is not associative", operands=(x, y, z), returned=(p, q))
                ctx.ev(k + " associative")
    # two operators at once keep their own element
    b = r.choice([3, 9, 77])
    other = cls(b)
    ctx.expect(same(other(b, 5), b) and same(other(5, b), b) and same(op(a, xs[0]), a) and same(op(xs[0], a), a), "the elements of two operators are mixed", first=a, second=b)
    ctx.expect(same(op.absorbing, a) and same(other.absorbing, b), "the element of an operator is not the given one", first=op.absorbing, second=other.absorbing)
    ctx.ev("two operators")
    if len(seen) == 2:
        ctx.nontrivial(k, repr(a), repr(ws))


def relations(ctx):
    r = ctx.rng
    less, greater = Less(), GreaterThan()
    pools = [[0, 1, -1, 2, 0.5, 1.0, Fraction(1, 2), INFINITY, INFINITY - 1, math.inf, -math.inf, True], ["", "a", "b", "ab", "B"], [(), (1,), (1, 2), (2,)],
             [math.nan, 0.0, -0.0, 1.0], [frozenset(), frozenset("a"), frozenset("ab"), frozenset("b")]]
    xs = r.choice(pools)
    for _ in range(12):
        x, y = r.choice(xs), r.choice(xs)
        ctx.note(x=x, y=y)
        ctx.eq((bool(less(x, y)), bool(greater(x, y))), (x < y, x > y), "order relation")
        ctx.eq(bool(less(x, y)), bool(greater(y, x)), "the two relations are not mirror of each other")
        ctx.ev("less" if x < y else "greater" if x > y else "equal")
    ctx.expect(isinstance(less, BinaryRelation) and isinstance(greater, BinaryRelation), "an order relation is not a binary relation")
    ctx.expect(isinstance(ClosedPlus(), ClosedOperator) and isinstance(ClosedMin(), algebra.BinaryOperator), "a closed operator is not an operator")

    class Sub(ClosedOperator):
        def impl(self, x, y):
            return x - y
    a = r.choice([0, 4, "no"])
    op = Sub(a)
    for x, y in [(r.randint(0, 6), r.randint(0, 6)) for _ in range(6)] + [(a, 1), (1, a), (a, a)]:
        ctx.eq(op(x, y), a if a in (x, y) else x - y, "operator of a derived class", x=x, y=y, absorbing=a)
    ctx.ev("custom operator")
    ctx.raises(NotImplementedError, lambda: BinaryRelation()(1, 2), "the base relation answers")
    ctx.raises(NotImplementedError, lambda: ClosedOperator(0)(1, 2), "the base operator answers")
    ctx.ev("base classes")
    ctx.nontrivial(repr(xs), ctx.i)


FAMILIES = [
    Fam("operators", operators, 64000, 1600000),
    Fam("relations", relations, 16000, 400000),
]
