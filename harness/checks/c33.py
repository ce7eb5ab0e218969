"""C33: property maps in lock-step with a plain dictionary."""
from collections import defaultdict

from pybgl.property_map import (
    AssocPropertyMap, ConstantPropertyMap, FuncPropertyMap, IdentityPropertyMap, PropertyMap, ReadPropertyMap, ReadWritePropertyMap,
    get, identity_property_map, make_assoc_property_map, make_constant_property_map, make_func_property_map, put,
)

from ..core import Fam

ANCHORS = ["property_map.py"]
RULE = (
    "A case is a history of reads, writes (through one of several maps, through put, or in the dictionary itself) and dictionary updates over few keys of "
    "mixed types, each read compared with a plain dictionary; or reads of function, identity and constant maps, with attempts to write and delete. "
    "Non-trivial: at least 3 writes, one overwriting; distinct by history."
)
REQUIRED = ["read", "write", "overwrite", "default", "dictionary update", "dictionary removal", "shared dictionary", "function", "identity", "constant",
            "falsy value", "write refused", "delete refused", "abstract refused", "plain dict refused", "many keys"]
ASSUMPTIONS = ["keys are hashable and compare as usual", "the dictionary is a defaultdict, as documented"]

KEYS = [0, 1, 1.0, True, -1, "a", "", "A", "\u00e9", None, (0, 1), (1, 0), (0, (1,)), frozenset([1]), int, b"a", float("inf"), 2**70]


class K:
    """Hashed and compared by value, never identical."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v)

    def __eq__(self, o):
        return isinstance(o, K) and o.v == self.v

    def __repr__(self):
        return f"K({self.v!r})"


def key(r):
    k = r.choice(KEYS)
    return K(k) if r.random() < 0.2 else k


class Odd:
    """Neither true nor false, equal to nothing."""

    def __bool__(self):
        raise RuntimeError("truth value asked")

    def __eq__(self, o):
        raise RuntimeError("comparison asked")

    def __len__(self):
        raise RuntimeError("length asked")

    __hash__ = None

    def __repr__(self):
        return "Odd()"


ODD = [lambda: 0, lambda: 0.0, lambda: "", lambda: [], tuple, lambda: None, lambda: False, lambda: float("nan"), lambda: 7, lambda: 7.0,
       lambda: float("inf"), lambda: {}, set, Odd, lambda: "v", lambda: 10**30, lambda: NotImplemented, lambda: Ellipsis, lambda: StopIteration(), lambda: iter(())]


def is_true(v):
    return isinstance(v, Odd) or v is NotImplemented or bool(v)


FACTORIES = [(int, 0), (str, ""), (list, []), (lambda: None, None), (lambda: 7, 7), (lambda: True, True), (lambda: "d", "d"), (lambda: [1], [1]), (dict, {}), (lambda: float("inf"), float("inf")), (set, set())]


def history(ctx):
    r = ctx.rng
    factory, default = r.choice(FACTORIES)
    model = {}
    d = defaultdict(factory)
    for _ in range(r.choice([0, 0, 2, 5])):
        k, v = key(r), r.randrange(100)
        d[k] = model[k] = v
    maps = [make_assoc_property_map(d)]
    if r.random() < 0.4:
        maps.append(AssocPropertyMap(d))
        ctx.ev("shared dictionary")
    ops = []
    ctx.note(ops=ops, default=default)
    over = 0
    for _ in range(r.choice([4, 10, 25])):
        p = r.choice(maps)
        x = r.random()
        k = key(r)
        if x < 0.35:
            v = r.choice([lambda: r.randrange(5), lambda: r.choice(ODD)(), lambda: r.choice(ODD)(), lambda: factory(), lambda: [r.randrange(3)], lambda: (k,), lambda: k])()
            if not is_true(v):
                ctx.ev("falsy value")
            ops.append(("write", k, v))
            if r.random() < 0.5:
                p[k] = v
            else:
                put(p, k, v)
            over += k in model
            if k in model:
                ctx.ev("overwrite")
            model[k] = v
            ctx.ev("write")
            ctx.expect(d[k] is v, "the value written is not in the dictionary", key=k)
        elif x < 0.75:
            ops.append(("read", k))
            v = p[k] if r.random() < 0.5 else get(p, k)
            if k in model:
                ctx.expect(v is model[k], "the value read is not the last one written", key=k, read=v, written=model[k])
                ctx.ev("read")
            else:
                ctx.eq(v, default, "reading a key never written does not give the default", key=k)
                ctx.ev("default")
                if r.random() < 0.5:
                    v2 = p[k]
                    ctx.eq(v2, default, "second read of a default", key=k)
        elif x < 0.85:
            v = r.randrange(1000, 2000)
            ops.append(("dict", k, v))
            d[k] = model[k] = v
            ctx.ev("dictionary update")
        elif x < 0.92:
            ops.append(("pop", k))
            d.pop(k, None)
            model.pop(k, None)
            ctx.ev("dictionary removal")
        elif x < 0.94:
            ops.append(("clear",))
            d.clear()
            model.clear()
        else:
            ops.append(("del", k))
            ctx.raises(Exception, lambda: p.__delitem__(k), "deleting a key is accepted", key=k)
            ctx.ev("delete refused")
        for k, v in model.items():
            ctx.expect(p[k] is v, "a value changed without being written", key=k, read=p[k], written=v)
    ctx.expect(all(d[k] is v for k, v in model.items()), "the dictionary does not hold what was written")
    if over and len(model) >= 2 and sum(o[0] == "write" for o in ops) >= 3:
        ctx.nontrivial(repr(ops))
    ctx.sample(ops=ops)


def readonly(ctx):
    r = ctx.rng
    table = {key(r): r.randrange(50) for _ in range(6)}
    c = r.choice([lambda: "x", lambda: [1], *[o for o in ODD if o is not Odd]])()
    calls = []

    def f(k):
        calls.append(k)
        return ("f", k, table.get(k))

    maps = {
        "function": (make_func_property_map(f), lambda k: ("f", k, table.get(k))),
        "class": (FuncPropertyMap(f), lambda k: ("f", k, table.get(k))),
        "identity": (identity_property_map(), lambda k: k),
        "identity class": (IdentityPropertyMap(), lambda k: k),
        "constant": (make_constant_property_map(c), lambda k: c),
        "constant class": (ConstantPropertyMap(c), lambda k: c),
    }
    for _ in range(8):
        name = r.choice(list(maps))
        p, want = maps[name]
        k = key(r)
        ctx.note(map=name, key=k)
        if r.random() < 0.3:
            w = (lambda: p.__setitem__(k, 5)) if r.random() < 0.5 else (lambda: put(p, k, 5))
            ctx.raises(Exception, w, "a read-only map accepts a write")
            ctx.ev("write refused")
            if r.random() < 0.3:
                ctx.raises(Exception, lambda: p.__delitem__(k), "a read-only map accepts a deletion")
        v = p[k] if r.random() < 0.5 else get(p, k)
        if name.startswith("constant"):
            ctx.expect(v is c, "the constant is not the object given")
        else:
            ctx.eq(v, want(k), "value read")
        if name.startswith("identity"):
            ctx.expect(v is k, "the key is not returned itself")
        ctx.ev(name.split()[0])
    # unhashable keys are fine for the maps that do not store them
    u = [1, 2]
    ctx.expect(identity_property_map()[u] is u, "identity of an unhashable key")
    ctx.expect(make_constant_property_map(c)[u] is c, "constant of an unhashable key")
    ctx.eq(make_func_property_map(len)[u], 2, "function of an unhashable key")
    for cls in (PropertyMap, ReadPropertyMap, ReadWritePropertyMap):
        ctx.raises(Exception, cls, "an abstract map can be created", cls=cls)
        ctx.ev("abstract refused")
    ctx.raises(TypeError, lambda: make_assoc_property_map(dict(table)), "a dictionary without default is accepted")
    ctx.ev("plain dict refused")
    for p, _ in maps.values():
        ctx.expect(isinstance(p, ReadPropertyMap), "type of a read-only map")
    ctx.expect(isinstance(make_assoc_property_map(defaultdict(int)), ReadWritePropertyMap), "type of a writable map")
    ctx.nontrivial(repr(table), repr(c))


def large(ctx):
    """Hundreds of keys, looked up through equal but distinct objects."""
    r = ctx.rng
    n = r.choice([50, 300, 1200])
    make = r.choice([lambda i: 10 ** 6 + i, lambda i: f"key{i}", lambda i: (i, f"k{i}"), lambda i: i + 0.5, lambda i: frozenset([i, -i]), lambda i: K(i), lambda i: b"%d" % i])
    d = defaultdict(lambda: None)
    p = make_assoc_property_map(d)
    model = {}
    ctx.note(n=n, key=repr(make(3)))
    for _ in range(2 * n):
        i, v = r.randrange(n), object()
        if r.random() < 0.5:
            p[make(i)] = v
        else:
            put(p, make(i), v)
        model[i] = v
    for i in range(n):
        ctx.expect(p[make(i)] is model.get(i) and get(p, make(i)) is model.get(i), "the value read is not the last one written", key=make(i))
    ctx.ev("many keys")
    ctx.nontrivial(n, repr(make(3)), ctx.i)


FAMILIES = [
    Fam("large", large, 240, 3200),
    Fam("history", history, 24000, 400000), Fam("readonly", readonly, 8000, 80000)]
