"""C27: heaps run in lock-step with a sorted list; comparisons of wrapped values."""
from fractions import Fraction

from pybgl.heap import Comparable, Heap, compare_to_key

from ..core import Fam

ANCHORS = ["heap.py"]
RULE = (
    "A case is a history of pushes, pops, key decreases, iterations and measures on a heap under one of several total preorders (with many ties), in lock-step with a plain list; "
    "or all pairs of a set of values compared in the six ways. Non-trivial: at least 3 pops among at least 4 elements; distinct by history."
)
REQUIRED = ["push", "pop", "pop among ties", "decrease_key", "decrease_key of repeated elements", "iteration", "initial elements", "comparisons", "equivalent but different",
            "sorted", "unorderable elements", "emptied", "large heaps"]
ASSUMPTIONS = ["the preorder is total (reflexive, transitive, any two values related)", "keys change only towards the front, and the change is announced by decrease_key before any other operation"]

# (name, value generator, preorder(a, b) "a may come before b", rank usable as a reference)
ORDERS = [
    ("<=", lambda r: r.randint(0, 9), lambda a, b: a <= b, lambda a: a),
    (">=", lambda r: r.randint(0, 9), lambda a, b: a >= b, lambda a: -a),
    ("parity then value", lambda r: r.randint(0, 30), lambda a, b: (a % 2, a) <= (b % 2, b), lambda a: (a % 2, a)),
    ("modulo", lambda r: r.randint(0, 30), lambda a, b: a % 3 <= b % 3, lambda a: a % 3),
    ("length", lambda r: "x" * r.randint(0, 4) + r.choice("ab"), lambda a, b: len(a) <= len(b), len),
    ("all equivalent", lambda r: r.randint(0, 9), lambda a, b: True, lambda a: 0),
    ("absolute", lambda r: r.choice([Fraction(1, 2), -1, 1, 0.5, 2, -2, 0]), lambda a, b: abs(a) <= abs(b), abs),
    ("size of sets", lambda r: frozenset(r.sample(range(5), r.randint(0, 5))), lambda a, b: len(a) <= len(b), len),
    ("descending words", lambda r: "".join(r.choice("ab") for _ in range(3)), lambda a, b: a >= b, lambda a: tuple(-ord(c) for c in a)),
]


def compare(ctx):
    r = ctx.rng
    name, value, pre, rank = r.choice(ORDERS)
    xs = [value(r) for _ in range(r.randint(2, 7))]
    ctx.note(order=name, values=xs)
    key = compare_to_key(pre)
    for a in xs:
        for b in xs:
            A, B = r.choice([lambda x: Comparable(x, pre), key])(a), Comparable(b, pre)
            ctx.note(a=a, b=b)
            ra, rb = rank(a), rank(b)
            ctx.eq((A < B, A <= B, A == B, A != B, A > B, A >= B), (ra < rb, ra <= rb, ra == rb, ra != rb, ra > rb, ra >= rb), "comparisons (<, <=, ==, !=, >, >=)")
            ctx.ev("comparisons", 6)
            ctx.ev("equivalent but different", int(ra == rb and a != b))
            ctx.expect(A.obj is a, "the wrapped value was altered")
    ctx.eq([id(x) for x in sorted(xs, key=key)], [id(x) for x in sorted(xs, key=rank)], "sorting by the order")
    ctx.ev("sorted")
    ctx.expect(min(xs, key=key) is min(xs, key=rank) and rank(max(xs, key=key)) == rank(max(xs, key=rank)), "min or max by the order")


class Box:
    """An element without order, equal to the boxes of the same name."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Box) and o.name == self.name

    __hash__ = None

    def __repr__(self):
        return f"Box({self.name})"


def history(ctx):
    r = ctx.rng
    name, value, pre, rank = r.choice(ORDERS)
    boxed = r.random() < 0.5  # elements looked up in a table of keys, which may change
    plain = not boxed and name == "<=" and r.random() < 0.6
    names = [f"n{k}" for k in range(r.choice([2, 5, 12, 40]))]
    keys = {}

    def make():
        if not boxed:
            return value(r)
        n = r.choice(names)
        if n not in keys:
            keys[n] = value(r)
        return Box(n)

    keyof = (lambda x: keys[x.name]) if boxed else (lambda x: x)
    tc = None if plain else (lambda x: Comparable(keyof(x), pre))
    init = [make() for _ in range(r.choice([0, 0, 1, 3, 8]))]
    give = r.choice([list, tuple])(init)
    h = Heap(give, to_comparable=tc) if r.random() < 0.5 or init else Heap(to_comparable=tc)
    if init:
        ctx.ev("initial elements")
    ctx.ev("unorderable elements", int(boxed))
    model = []  # (rank, number, element)
    count = 0
    for x in init:
        model.append((rank(keyof(x)), count, x))
        count += 1
    ops = [("init", init)]
    ctx.note(order=name, boxed=boxed, ops=ops, keys=keys)
    pops = big = 0
    for _ in range(r.choice([5, 15, 40])):
        op = r.choice(["push"] * 4 + ["pop"] * 3 + ["dec", "iter", "len"])
        if op == "push":
            x = make()
            ops.append(("push", x))
            h.push(x)
            model.append((rank(keyof(x)), count, x))
            count += 1
            ctx.ev("push")
        elif op == "pop" and model:
            ops.append("pop")
            best = min(m[0] for m in model)
            x = h.pop()
            ctx.note(popped=x)
            ctx.ev("pop among ties", int(sum(m[0] == best for m in model) > 1))
            same = (lambda y: y == x) if boxed else (lambda y: y is x)
            mine = [m for m in model if same(m[2])]
            ctx.expect(mine, "the popped element is not in the heap (or left twice)")
            ctx.eq(rank(keyof(x)), best, "the popped element comes after another one")
            m = min(model, key=lambda m: m[:2])
            ctx.expect(same(m[2]), "equally ranked elements must leave in order of insertion", expected_element=m[2])
            model.remove(m)
            pops += 1
            big = max(big, len(model) + 1)
            ctx.ev("pop")
        elif op == "dec" and boxed and model:
            x = r.choice(model)[2]
            new = value(r)
            if rank(new) <= rank(keys[x.name]):
                keys[x.name] = new
                ops.append(("decrease_key", x, new))
                h.decrease_key(Box(x.name) if r.random() < 0.5 else x)
                same = [m for m in model if m[2] == x]
                model = [(rank(new), k, y) if y == x else (q, k, y) for q, k, y in model]
                ctx.ev("decrease_key")
                ctx.ev("decrease_key of repeated elements", int(len(same) > 1))
        elif op == "iter":
            ctx.eq(list(h), [m[2] for m in sorted(model, key=lambda m: m[:2])], "iteration must be in order, without popping")
            ctx.ev("iteration")
        ctx.eq(len(h), len(model), "len()")
        ctx.eq(bool(h), bool(model), "bool()")
    while model:
        x = h.pop()
        m = min(model, key=lambda m: m[:2])
        ctx.expect(m[2] is x or boxed and m[2] == x, "the popped element is not the first one", popped=x, expected_element=m[2])
        model.remove(m)
        pops += 1
    ctx.eq((len(h), bool(h), list(h)), (0, False, []), "emptied heap")
    ctx.raises(IndexError, h.pop, "pop() of an empty heap")
    ctx.eq(list(give), init, "the initial elements were altered")
    ctx.ev("emptied")
    if pops >= 3 and big >= 4:
        ctx.nontrivial(name, ops)
    ctx.sample(order=name, ops=ops[:10])


def large(ctx):
    """Hundreds of elements; long runs of pushes, pops and key decreases."""
    r = ctx.rng
    name, value, pre, rank = r.choice(ORDERS)
    n = r.choice([30, 100, 300, 600, 1300])
    keys = {k: value(r) for k in range(n)}
    far = 10 ** 9  # elements equal to a stored one without being the same object
    init = [far + k for k in range(n) if r.random() < 0.5]
    r.shuffle(init)
    h = Heap(init, to_comparable=lambda x: Comparable(keys[x - far], pre))
    model = [(rank(keys[x - far]), k, x) for k, x in enumerate(init)]
    count = len(model)
    ops = []
    ctx.note(order=name, keys=dict(keys), initial=init, ops=ops)
    for phase in range(r.choice([2, 5])):
        bias = r.choice([(8, 1, 1), (1, 8, 1), (1, 1, 8), (3, 3, 3)])
        for _ in range(r.choice([20, 100])):
            op = r.choices(["push", "pop", "dec"], bias)[0]
            if op == "push":
                x = far + r.randrange(n)
                ops.append(("push", x))
                h.push(x)
                model.append((rank(keys[x - far]), count, x))
                count += 1
            elif op == "pop" and model:
                m = min(model, key=lambda m: m[:2])
                x = h.pop()
                ops.append(("pop", x))
                ctx.eq(x, m[2], "the popped element is not the first one")
                model.remove(m)
            elif op == "dec" and model:
                x = r.choice(model)[2]
                new = value(r)
                if rank(new) <= rank(keys[x - far]):
                    keys[x - far] = new
                    ops.append(("decrease_key", x, new))
                    h.decrease_key(int(str(x)))
                    model = [(rank(new), k, y) if y == x else (q, k, y) for q, k, y in model]
        ctx.eq((len(h), bool(h)), (len(model), bool(model)), "len() and bool()")
        ctx.eq(list(h), [m[2] for m in sorted(model, key=lambda m: m[:2])], "iteration must be in order, without popping")
    out = []
    while h:
        out.append(h.pop())
    ctx.eq(out, [m[2] for m in sorted(model, key=lambda m: m[:2])], "order in which the heap is emptied")
    ctx.ev("large heaps")
    ctx.nontrivial(name, ops)


FAMILIES = [
    Fam("large", large, 600, 12000),
    Fam("compare", compare, 6000, 80000),
    Fam("history", history, 20000, 400000),
]
