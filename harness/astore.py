"""Lock-step model of the four deterministic automaton classes (used by C02 and C03)."""
import pybgl
from pybgl import automaton as A
from pybgl.automaton import Automaton
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.node_automaton import NodeAutomaton

from . import gen

CLASSES = [Automaton, IncidenceAutomaton, NodeAutomaton, IncidenceNodeAutomaton]
UNSET = object()


def is_node(C):
    return issubclass(C, NodeAutomaton)


class Store:
    """An automaton under test with its model; `step` applies one random operation to both."""

    def __init__(self, ctx, C, alphabet, cap=5):
        self.ctx, self.C, self.alphabet, self.cap = ctx, C, alphabet, cap
        self.g = C()
        self.node = is_node(C)
        self.vs = []
        self.tr = {}  # q -> {a: r}
        self.sym = {}
        self.finals = set()
        self.init = 0  # documented default
        self.init_known = True
        self.ops = []
        self.removed = 0
        self.conflicts = 0
        self.words = None

    def edges(self):
        return [(q, r, a) for q, t in self.tr.items() for a, r in t.items()]

    # ---- operations
    def add_vertex(self, a=None):
        ctx = self.ctx
        self.ops.append(("av", a))
        if self.node:
            q = self.g.add_vertex(a) if a is not None else self.g.add_vertex()
            self.sym[q] = a
        else:
            q = self.g.add_vertex()
        ctx.expect(q not in self.vs, "add_vertex() reused the identifier of a present state", q=q, vs=self.vs)
        self.vs.append(q)
        self.tr[q] = {}
        ctx.ev("op add_vertex")
        return q

    def add_edge(self, q, r, a, fun=False):
        ctx = self.ctx
        self.ops.append(("ae", q, r, a))
        if self.node:
            a = self.sym[r]
            e, ok = self.g.add_edge(q, r)
        else:
            e, ok = A.add_edge(q, r, a, self.g) if fun else self.g.add_edge(q, r, a)
        ctx.ev("op add_edge")
        if a in self.tr[q]:
            self.conflicts += 1
            ctx.ev("conflicting additions")
            if self.tr[q][a] == 0:
                ctx.ev("conflicts with a transition to state 0")
            ctx.expect(ok is False and e is None, "adding a second transition for a symbol must be refused",
                       transition=(q, r, a), existing=self.tr[q][a], returned=(e, ok))
        else:
            ctx.expect(ok is True and e is not None, "add_edge() refused a new transition", transition=(q, r, a))
            ctx.eq((self.g.source(e), self.g.target(e), self.g.label(e)), (q, r, a), "descriptor returned by add_edge()")
            self.tr[q][a] = r
        return e

    def remove_edge(self, q, a):
        ctx = self.ctx
        r = self.tr[q][a]
        self.ops.append(("re", q, r, a))
        e = next(e for e in self.g.out_edges(q) if self.g.label(e) == a and self.g.target(e) == r)
        self.g.remove_edge(gen.fresh(e))
        del self.tr[q][a]
        self.removed += 1
        ctx.ev("op remove_edge")

    def remove_vertex(self, q):
        self.ops.append(("rv", q))
        self.g.remove_vertex(gen.fresh(q))
        self.vs.remove(q)
        del self.tr[q]
        for t in self.tr.values():
            for a in [a for a, r in t.items() if r == q]:
                del t[a]
        self.finals.discard(q)
        self.sym.pop(q, None)
        if self.init == q:
            self.init_known = False
        self.removed += 1
        self.ctx.ev("op remove_vertex")

    def clear(self):
        self.ops.append(("cl",))
        self.g.clear()
        self.vs.clear()
        self.tr.clear()
        self.finals.clear()
        self.sym.clear()
        self.init_known = False
        self.removed += 1
        self.ctx.ev("op clear")

    def set_final(self, q, b, fun):
        self.ops.append(("sf", q, b))
        A.set_final(q, self.g, b) if fun else self.g.set_final(q, b)
        (self.finals.add if b else self.finals.discard)(q)
        self.ctx.ev("op set_final")

    def set_initial(self, q, b, fun):
        if not b and not self.init_known:
            return
        self.ops.append(("si", q, b))
        A.set_initial(q, self.g, b) if fun else self.g.set_initial(q, b)
        if b:
            self.init, self.init_known = q, True
        elif self.init == q:
            self.init = None
        self.ctx.ev("op set_initial")

    def step(self, r):
        x = r.random()
        fun = r.random() < 0.3
        if not self.vs or (x < 0.14 and len(self.vs) < self.cap):
            self.add_vertex(r.choice(self.alphabet + [None]) if self.node else None)
        elif x < 0.58:
            q, s = r.choice(self.vs), r.choice(self.vs)
            if 0 in self.vs and r.random() < 0.3:
                s = 0
            self.add_edge(q, s, r.choice(self.alphabet), fun)
        elif x < 0.74:
            es = self.edges()
            if es:
                q, s, a = r.choice(es)
                self.remove_edge(q, a)
            else:
                self.add_edge(r.choice(self.vs), r.choice(self.vs), r.choice(self.alphabet), fun)
        elif x < 0.80:
            self.remove_vertex(r.choice(self.vs))
        elif x < 0.89:
            self.set_final(r.choice(self.vs), r.random() < 0.7, fun)
        elif x < 0.985:
            self.set_initial(r.choice(self.vs), r.random() < 0.7, fun)
        else:
            self.clear()

    def shrink(self, r):
        for _ in range(r.choice([3, 20, 60])):
            x = r.random()
            es = self.edges()
            if x < 0.5 and es:
                q, _, a = r.choice(es)
                self.remove_edge(q, a)
            elif x < 0.6 and len(self.vs) > 3:
                self.remove_vertex(self.vs[0] if r.random() < 0.2 else r.choice(self.vs))
            elif x < 0.7:
                self.set_final(gen.fresh(r.choice(self.vs)), r.random() < 0.5, r.random() < 0.5)
            elif x < 0.8:
                q = r.choice([self.init, r.choice(self.vs), max(self.vs)])
                self.set_initial(gen.fresh(q), r.random() < 0.5, r.random() < 0.5) if q in self.vs else None
            elif x < 0.95:
                self.add_edge(r.choice(self.vs), r.choice(self.vs), r.choice(self.alphabet), r.random() < 0.5)
            else:
                self.add_vertex(r.choice(self.alphabet) if self.node else None)

    # ---- queries
    def check(self, full=True):
        ctx, g = self.ctx, self.g
        vs = list(g.vertices())
        ctx.eq(sorted(vs), sorted(self.vs), "states differ from the history")
        ctx.eq(g.num_vertices(), len(self.vs), "num_vertices()")
        want = sorted(self.edges(), key=repr)
        es = list(g.edges())
        got = sorted(((g.source(e), g.target(e), g.label(e)) for e in es), key=repr)
        ctx.eq(got, want, "transitions differ from the history")
        ctx.eq(len(set(es)), len(es), "two transitions have equal descriptors")
        ctx.eq(g.num_edges(), len(want), "num_edges()")
        for q in self.vs:
            t = self.tr[q]
            out = [(g.source(e), g.target(e), g.label(e)) for e in g.out_edges(q)]
            ctx.eq(sorted(out, key=repr), sorted(((q, r, a) for a, r in t.items()), key=repr), "out_edges()", q=q)
            ctx.eq(g.out_degree(q), len(t), "out_degree()", q=q)
            ctx.eq(set(g.sigma(q)), set(t), "sigma()", q=q)
            for a in self.alphabet + ["unknown", None]:
                ctx.eq(g.delta(q, a), t.get(a), "delta()", q=q, a=a)
            ctx.eq(bool(g.is_final(q)), q in self.finals, "is_final()", q=q)
            if self.node:
                ctx.eq(g.symbol(q), self.sym[q], "symbol()", q=q)
        ctx.eq(set(g.finals()), self.finals, "finals()")
        if self.init_known:
            ctx.eq(g.initial(), self.init, "initial()")
            for q in self.vs:
                ctx.eq(bool(g.is_initial(gen.fresh(q))), q == self.init, "is_initial()", q=q)
            if self.words is None:
                rng = ctx.rng
                self.letters = all(type(a) is str and len(a) == 1 for a in self.alphabet) and rng.random() < 0.7
                self.words = [tuple(rng.choice(self.alphabet) for _ in range(rng.randint(0, 4))) for _ in range(3)]
            for w in self.words if self.init in self.tr else ():
                q = self.init
                for a in w:
                    q = self.tr[q].get(a) if q is not None else None
                x = "".join(w) if self.letters else w
                ctx.eq(g.delta_word(g.initial(), x), q, "delta_word() in a history", word=w)
                ctx.eq(bool(g.accepts(x)), q is not None and q in self.finals, "accepts() in a history", word=w)
        used = {a for _, _, a in want}
        if not self.node:
            ctx.eq(bool(g.is_complete()), all(set(t) == used for t in self.tr.values()), "is_complete() in a history")
        al = set(g.alphabet())
        if not self.node:
            ctx.eq(al, used, "alphabet()")
        else:
            ctx.eq(al, used | {self.sym[q] for q in self.vs if q != self.init}, "alphabet()")
        if full:
            for q in self.vs:
                for r in self.vs:
                    if self.node:
                        hit = any(x == r for x in self.tr[q].values())
                        e, found = g.edge(gen.fresh(q), gen.fresh(r))
                        ctx.eq(bool(found), hit, "edge(q, r)", q=q, r=r)
                        ctx.expect((e in es) if found else e is None, "edge(q, r) descriptor", q=q, r=r, e=e)
                    else:
                        for a in self.alphabet:
                            hit = self.tr[q].get(a, UNSET) == r
                            e, found = g.edge(gen.fresh(q), gen.fresh(r), a)
                            ctx.eq(bool(found), hit, "edge(q, r, a)", q=q, r=r, a=a)
                            ctx.expect((e in es) if found else e is None, "edge(q, r, a) descriptor", q=q, r=r, a=a, e=e)
            for q, r, a in want[:2]:
                ctx.eq(A.delta(q, a, g), r, "delta(q, a, g)", q=q, a=a)
                ctx.eq(set(A.sigma(q, g)), set(self.tr[q]), "sigma(q, g)", q=q)

    def check_incidence(self):
        ctx, g = self.ctx, self.g
        es = set(g.edges())
        for r in self.vs:
            inn = list(g.in_edges(r))
            got = sorted(((g.source(e), g.target(e), g.label(e)) for e in inn), key=repr)
            want = sorted(((q, s, a) for q, s, a in self.edges() if s == r), key=repr)
            ctx.eq(got, want, "in_edges()", r=r)
            ctx.expect(len(set(inn)) == len(inn) and set(inn) <= es, "in_edges() gives descriptors that edges() does not", r=r)
            ctx.eq(g.in_degree(r), len(want), "in_degree()", r=r)
            ctx.ev("in-edge sets compared")


def grown(ctx, C):
    """A store with many states, a state with many transitions or a wide alphabet."""
    r = ctx.rng
    kind = r.choice(["chain", "hub", "wide", "random"])
    n = r.choice([60, 130, 300]) if kind != "wide" else r.randint(3, 6)
    al = gen.wide_alphabet(r, 200 if kind == "wide" else n) if kind in ("hub", "wide") else ["a", "b", 1000]
    s = Store(ctx, C, al, n)
    ctx.note(cls=C.__name__, kind=kind, n=n, ops=s.ops)
    for k in range(n):
        s.add_vertex(al[k % len(al)] if s.node else None)
    V = s.vs[:]
    for k in range(n):
        if kind == "chain" and k + 1 < n:
            s.add_edge(V[k], V[k + 1], r.choice(al), r.random() < 0.3)
        elif kind == "hub" and k:
            s.add_edge(V[0], V[k], al[k], False)
            if r.random() < 0.8:
                s.add_edge(V[k], V[0], r.choice(al), False)
        elif kind == "wide":
            for a in al:
                if r.random() < 0.8:
                    s.add_edge(V[k], r.choice(V), a, False)
        elif kind == "random":
            for a in al:
                s.add_edge(V[k], r.choice(V), a, False)
    for q in V:
        if r.random() < 0.3:
            s.set_final(q, True, False)
    for _ in range(10):
        s.add_edge(r.choice(V), r.choice(V), r.choice(al), False)
    s.set_initial(r.choice(V), True, False)
    s.check(full=False)
    return s
