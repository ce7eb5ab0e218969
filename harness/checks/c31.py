"""C31: the DOT text of any graph, parsed by an independent parser and by dot, then read back."""
import io
import os
import tempfile
import xml.etree.ElementTree as ET
from collections import Counter, defaultdict

from pybgl.automaton import Automaton
from pybgl.bk_tree import BKTree
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_view import GraphView
from pybgl.graphviz import (
    ReadGraphvizVisitor, dot_to_svg, dotstr_to_html, graph_to_html, graphviz_escape_char, graphviz_escape_html, read_graphviz, read_graphviz_dp, run_graphviz, write_graphviz,
)
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
from pybgl.levenshtein_distance import levenshtein_distance
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton
from pybgl.property_map import make_assoc_property_map, make_func_property_map
from pybgl.shunting_yard_postfix import MAP_OPERATORS_ALG, shunting_yard_ast, tokenizer_alg
from pybgl.trie import Trie

from .. import dot, gen
from ..core import Fam
from ..iso import isomorphism
from ..nfaref import build_nfa, random_nfa

ANCHORS = ["graphviz_impl.py", "graphviz.py", "graph.py", "automaton.py", "nfa.py", "node_automaton.py", "bk_tree.py", "tokenize.py"]
RULE = (
    "A case is a graph or automaton of any class with random labels (printable, HTML-like, non-ASCII and control characters) exported to DOT, the text being parsed "
    "by an independent DOT parser and compared element by element, then read back (graph, attributes, reader's visitor) and compared; in the svg family the text goes "
    "through the dot program and the picture is compared. Written family: hand-written line-based DOT of varied spacing and quoting is read. Non-trivial: at least 2 "
    "edges and a label that needs escaping; distinct by text."
)
REQUIRED = ["directed", "undirected", "read back", "attributes read back", "loop", "parallel edges", "label to escape", "html tags", "control characters", "empty label",
            "automata", "final states", "nfa", "node automata", "views", "trees", "aliases", "written", "visitor of the reader", "svg", "written file", "open file", "exported after a change", "other engine", "invalid refused", "large graphs", "many attributes"]
ASSUMPTIONS = [
    "HTML tags supported by Graphviz that appear in a label are well-formed",
    "in the picture, Graphviz gives its own meaning to backslash sequences such as \\N: labels with a backslash are only compared in the text",
    "the text read describes integer vertices, one element per line, vertices first (documented), and attributes without line breaks",
]

POOLS = ["abc01", "abc <>&[]{}", "\"'\\/;=,", "é雪\U0001f600ßπ", " \t\n\rab", "".join(chr(i) for i in range(32)), "".join(chr(i) for i in range(32, 127)), "&#;amp<lt>xb/", "->-[];=",
         "\u2028\u2029\x85\xa0 ab", "<b <c>/>a"]


def text(r, ctx=None):
    k = r.random()
    if k < 0.07:
        if ctx:
            ctx.ev("empty label")
        return ""
    if k < 0.2:
        if ctx:
            ctx.ev("html tags")
        inner = "".join(r.choice("ab&<>[] ") for _ in range(r.randint(1, 4))).replace("<b>", "").replace("<s>", "")
        return r.choice(["<b>%s</b>", "<i>%s</i>x", "x<br/>%s", "<font color='red'><b>%s</b></font>", "<B>%s</B>", "<sub>%s</sub>", "a<u>%s</u><foo>", "1 < 2 <s>%s</s>", "<font face='x/y'>%s</font>", "<br align='left'/>%s"]) % (inner or "z")
    pool = r.choice(POOLS)
    s = "".join(r.choice(pool) for _ in range(r.choice([1, 1, 2, 4, 8])))
    while dot.TAG.search(s):  # lone tags: malformed
        s = s.replace(">", "")
    if ctx and any(ord(c) < 32 for c in s):
        ctx.ev("control characters")
    return s


def parse(ctx, s):
    ctx.note(text=s)
    try:
        d = dot.Dot(s)
    except dot.Bad as e:
        ctx.fail(f"the text is not valid DOT: {e}")
    ctx.expect("default after elements" not in d.order, "a default comes after elements it cannot apply to")
    return d


def shows(ctx, value, s, what, **kv):
    try:
        ok = dot.shows(value, s)
    except dot.Bad as e:
        ctx.fail(f"{what}: {e}", value=value, label=s, **kv)
    ctx.expect(ok, what, value=value, label=s, **kv)


def judge_text(ctx, g, s, vlabel=None, elabel=None, name=str, vs=None, es=None, vattrs=None, eattrs=None):
    """Each vertex and edge once, with its label (None: no label expected)."""
    d = parse(ctx, s)
    directed = getattr(g, "directed", True)
    ctx.eq(d.directed, directed, "direction of the graph")
    vs = list(g.vertices()) if vs is None else list(vs)
    es = list(g.edges()) if es is None else list(es)
    ctx.eq(Counter(str(n) for n, _ in d.nodes), Counter(name(u) for u in vs), "vertices listed")
    got = Counter((str(a), str(b)) if directed else tuple(sorted((str(a), str(b)))) for a, _, b, _ in d.edges)
    want = Counter((name(g.source(e)), name(g.target(e))) if directed else tuple(sorted((name(g.source(e)), name(g.target(e))))) for e in es)
    ctx.eq(got, want, "edges listed")
    ctx.ev("directed" if directed else "undirected")
    if any(g.source(e) == g.target(e) for e in es):
        ctx.ev("loop")
    if any(k > 1 for k in want.values()):
        ctx.ev("parallel edges")
    by = {str(n): a for n, a in d.nodes}
    for u in vs:
        if vlabel is not None:
            l = vlabel(u)
            ctx.expect("label" in by[name(u)], "a vertex has no label", vertex=u)
            shows(ctx, by[name(u)]["label"], l, "label of a vertex", vertex=u)
        for k, f in (vattrs or {}).items():
            ctx.eq(by[name(u)].get(k), f(u), "attribute of a vertex", vertex=u, attribute=k)
    if elabel is not None or eattrs:
        # edges of the text matched with the edges of the graph that have the same ends
        left = defaultdict(list)
        for a, _, b, at in d.edges:
            left[(str(a), str(b)) if directed else tuple(sorted((str(a), str(b))))].append(at)
        groups = defaultdict(list)
        for e in es:
            k = (name(g.source(e)), name(g.target(e)))
            groups[k if directed else tuple(sorted(k))].append(e)

        def fits(e, at):
            if any(at.get(x) != f(e) for x, f in (eattrs or {}).items()):
                return False
            if elabel is None:
                return True
            try:
                return "label" in at and dot.shows(at["label"], elabel(e))
            except dot.Bad:
                return False

        for k, l in groups.items():
            bad = dot.assign(l, left[k], fits)
            ctx.expect(bad is None, "no edge of the text has the label and attributes of this edge", edge=bad and bad[0], label=elabel(bad[0]) if bad and elabel else None, found=left[k])
    return d


def escapes(s):
    return any(c in "<>&[]{}\"\\" or ord(c) < 32 for c in s)


def random_graph(ctx, G=None):
    r = ctx.rng
    G = G or r.choice([DirectedGraph, UndirectedGraph, IncidenceGraph])
    n, E = gen.digraph(r, n_max=6)
    g, ids, es = gen.build(G, n, E, r, churn=r.random() < 0.3)
    return g


def safe(s):
    """Readable back exactly: no control character, no line separator of the tokenizer."""
    return s and all(ord(c) >= 32 for c in s)


def plain(r, ctx=None):
    """Attribute value that survives quoting: no line break, no backslash next to a quote or at the end."""
    s = "".join(r.choice("ab01 <>&[]{};=,'\"é雪->") for _ in range(r.choice([1, 3, 8])))
    return s


def export(ctx):
    r = ctx.rng
    g = random_graph(ctx)
    vs, es = list(g.vertices()), list(g.edges())
    vl = {u: text(r, ctx) for u in vs}
    el = {e: text(r, ctx) for e in es}
    vt = {u: f"v{u}" + plain(r) for u in vs}
    et = {e: f"e{i}" + plain(r) for i, e in enumerate(es)}
    ctx.note(graph=[(g.source(e), g.target(e)) for e in es], vlabels=vl, elabels=list(el.values()))
    with_v, with_e = r.random() < 0.8, r.random() < 0.8
    name = r.choice([str, str, lambda u: str(7 * u + 3), lambda u: str(10 ** 6 - u)])
    dpv = {"label": make_func_property_map(vl.__getitem__)} if with_v else {}
    dpe = {"label": make_func_property_map(el.__getitem__)} if with_e else {}
    extra = r.random() < 0.6
    if extra:
        for dp, k, t in ((dpv, "tooltip", vt), (dpe, "comment", et)):
            items = [(k, make_func_property_map(t.__getitem__))] + list(dp.items())
            r.shuffle(items)
            dp.clear()
            dp.update(items)
    more = {}
    if extra and r.random() < 0.03:
        # many attributes
        for j in range(r.choice([4, 16, 80])):
            k, x = f"m{j}", f"x{j}" + plain(r)
            more[k] = (lambda x: lambda o: x)(x)
            dpv[k] = dpe[k] = make_func_property_map(more[k])
        ctx.ev("many attributes")
    kw = {}
    if dpv:
        kw["dpv"] = dpv
    if dpe:
        kw["dpe"] = dpe
    if name is not str:
        kw["vertex_to_str"] = name
        ctx.ev("aliases")
    before = (sorted(map(repr, vs)), sorted(map(repr, es)))
    s = g.to_dot(**kw)
    ctx.eq((sorted(map(repr, g.vertices())), sorted(map(repr, g.edges()))), before, "exporting altered the graph")
    judge_text(ctx, g, s, vl.__getitem__ if with_v else None, el.__getitem__ if with_e else None, name,
               vattrs={"tooltip": vt.__getitem__, **more} if extra else None, eattrs={"comment": et.__getitem__, **more} if extra else None)
    if vs and r.random() < 0.3:  # the export follows the changes of the graph and of its labels
        u, e = r.choice(vs), g.add_edge(r.choice(vs), r.choice(vs))[0]
        es.append(e)
        vl[u], el[e], et[e] = text(r, ctx), text(r, ctx), f"e{len(es)}" + plain(r)
        s = g.to_dot(**kw)
        judge_text(ctx, g, s, vl.__getitem__ if with_v else None, el.__getitem__ if with_e else None, name,
                   vattrs={"tooltip": vt.__getitem__, **more} if extra else None, eattrs={"comment": et.__getitem__, **more} if extra else None)
    if any(map(escapes, vl.values())) or any(map(escapes, el.values())):
        ctx.ev("label to escape")
        if len(es) >= 2:
            ctx.nontrivial(s)

    # -- read back
    G = DirectedGraph if g.directed else UndirectedGraph
    h = G()
    source = r.choice([lambda: s, lambda: s.split("\n"), lambda: io.StringIO(s, newline="\n"), lambda: iter(s.split("\n"))])()
    k = r.random()
    dv, de = {}, {}
    kept = set()
    if 0.25 <= k < 0.4 and extra:  # the caller's maps already hold something: what is read replaces it
        dv = {u: {"tooltip": "old", "kept": "1"} for u in range(len(vs))}
        kept = {"kept"}
    if k < 0.25:
        read_graphviz(source, h)
    elif k < 0.7:
        read_graphviz_dp(source, h, dv, de)
    else:
        class Vis(ReadGraphvizVisitor):
            def on_install_vertex_property(self, u, g_, key, value):
                ctx.expect(g_ is h, "the graph given to the visitor")
                dv.setdefault(u, {})[key] = value

            def on_install_edge_property(self, e, g_, key, value):
                de.setdefault(e, {})[key] = value

        read_graphviz(source, h, Vis())
    ctx.eq((h.num_vertices(), h.num_edges()), (len(vs), len(es)), "size of the graph read back")
    hv, he = list(h.vertices()), list(h.edges())

    def pairs(g, es, lab):
        out = []
        for e in es:
            out.append((g.source(e), g.target(e), lab(e)))
            if not g.directed and g.source(e) != g.target(e):
                out.append((g.target(e), g.source(e), lab(e)))
        return out

    if k >= 0.25 and extra:
        lv = lambda u: vt[u]
        le = lambda e: et[e]
        m = isomorphism(vs, pairs(g, es, le), hv, pairs(h, he, lambda e: de.get(e, {}).get("comment")), vt, {u: dv.get(u, {}).get("tooltip") for u in hv})
        ctx.expect(m is not None, "the graph and attributes read back are not those exported", vertices=dv, edges=[(e, de.get(e)) for e in he], expected=(vt, list(et.items())))
        for u in vs:
            if with_v and safe(vl[u]):
                ctx.eq(dv[m[u]].get("label"), vl[u], "label read back on a vertex", vertex=u)
            for k, f in more.items():
                ctx.eq(dv[m[u]].get(k), f(u), "attribute read back on a vertex", vertex=u, attribute=k)
            ctx.expect(kept <= set(dv[m[u]]) <= {"label", "tooltip"} | kept | set(more), "attributes that no one gave", attributes=dv[m[u]])
        byc = {de[e]["comment"]: de[e] for e in he}
        for e in es:
            if with_e and safe(el[e]):
                ctx.eq(byc[et[e]].get("label"), el[e], "label read back on an edge", edge=e)
            for k, f in more.items():
                ctx.eq(byc[et[e]].get(k), f(e), "attribute read back on an edge", edge=e, attribute=k)
        ctx.ev("attributes read back")
    else:
        m = isomorphism(vs, pairs(g, es, lambda e: 0), hv, pairs(h, he, lambda e: 0))
        ctx.expect(m is not None, "the graph read back is another one", edges=[(h.source(e), h.target(e)) for e in he])
    ctx.ev("read back")
    ctx.sample(text=s)


def automata(ctx):
    """Exports of the automaton classes, the views, the tries, the BK-trees, the syntax trees."""
    r = ctx.rng
    k = r.randrange(7)
    if k == 0:
        d = gen.dfa(r, n_max=5, alphabet=r.choice([["a", "b"], ["<", "&"], ["[", "]", "é"], [0, 1], ["<b>x</b>", "\n"], ["", " "], ["\"", "\\"]]))
        g, _ = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), d, r)
    elif k == 1:
        ref = random_nfa(r, ["a", "<", "\u00e9"], "\u03b5", n_max=5)
        g = build_nfa(ref, Nfa, r)
        eps = g.epsilon
    elif k == 2:
        x = gen.node_dfa(r, n_max=5)
        g, _ = gen.build_node_dfa(r.choice([NodeAutomaton, IncidenceNodeAutomaton]), x[0], x[1], r)
    elif k == 3:
        g = Trie()
        for _ in range(r.randint(0, 5)):
            g.insert("".join(r.choice("ab<]") for _ in range(r.randint(0, 4))))
    elif k == 4:
        g = BKTree(levenshtein_distance)
        for _ in range(r.randint(1, 7)):
            g.insert("".join(r.choice("ab<&") for _ in range(r.randint(0, 4))))
    elif k == 5:
        e = str(r.randint(0, 9))
        for _ in range(r.randint(0, 6)):
            e = r.choice(["(%s)", "%s"]) % (e + r.choice("+-*/^") + str(r.randint(0, 9)))
        g = ast(e)
    else:
        base = random_graph(ctx)
        keep = {u for u in base.vertices() if r.random() < 0.7}
        g = GraphView(base, make_func_property_map(lambda u: u in keep))
    ctx.note(kind=type(g).__name__)

    def judge(s):
        if k in (0, 3):
            judge_text(ctx, g, s, None, lambda e: str(g.label(e)), vattrs={"shape": lambda u: "doublecircle" if g.is_final(u) else "circle"})
            ctx.ev("automata")
        elif k == 1:
            judge_text(ctx, g, s, None, lambda e: "<i>\u03b5</i>" if g.label(e) == eps else g.label(e), vattrs={"shape": lambda u: "doublecircle" if g.is_final(u) else "circle"})
            ctx.ev("nfa")
        elif k == 2:
            lab = {u: "^" if g.is_initial(u) else g.symbol(u) for u in g.vertices()}
            judge_text(ctx, g, s, lambda u: str(lab[u]), None, vattrs={"shape": lambda u: "doublecircle" if g.is_final(u) else "circle"})
            ctx.ev("node automata")
        elif k == 4:
            judge_text(ctx, g, s, lambda u: str(g.element(u)), lambda e: str(g.label(e)))
            ctx.ev("trees")
        elif k == 5:
            d = judge_text(ctx, g, s)
            by = dict(d.nodes)
            for u in g.vertices():
                ctx.expect(str(g.symbol(u)) in dot.html_text(by[str(u)]["label"]), "the token of a node is not in its label", node=u)
            ctx.ev("trees")
        else:
            judge_text(ctx, g, s)
            ctx.ev("views")

    s = g.to_dot()
    judge(s)
    # the export follows the changes
    vs = list(g.vertices())
    if k in (0, 1) and vs:
        for _ in range(r.randint(1, 3)):
            j = r.randrange(3)
            if j == 0:
                g.set_final(r.choice(vs), r.random() < 0.5)
            elif j == 1:
                g.add_edge(r.choice(vs), g.add_vertex(), r.choice(["c", "<"]))
            elif g.num_edges():
                g.remove_edge(r.choice(list(g.edges())))
    elif k == 2 and vs:
        g.add_edge(r.choice(vs), g.add_vertex(r.choice(["c", "<"])))
        g.set_final(r.choice(vs))
    elif k == 3:
        g.insert("".join(r.choice("ab<]") for _ in range(r.randint(0, 5))))
    elif k == 4:
        g.insert("".join(r.choice("ab<&") for _ in range(r.randint(0, 6))))
    elif k == 5 and vs:
        g.add_edge(r.choice(vs), g.add_vertex(r.choice(["8", "<", "&x"])))
    elif k == 6 and keep:
        base.add_edge(r.choice(sorted(keep)), r.choice(sorted(keep)))
        keep.add(base.add_vertex())
    s = g.to_dot()
    judge(s)
    ctx.ev("exported after a change")
    if k in (0, 1, 2, 3) and any(g.is_final(u) for u in g.vertices()):
        ctx.ev("final states")
    h = (DirectedGraph if getattr(g, "directed", True) else UndirectedGraph)()
    read_graphviz(s, h)
    ctx.eq((h.num_vertices(), h.num_edges()), (g.num_vertices(), g.num_edges()), "size of the graph read back")
    ctx.ev("read back")
    if g.num_edges() >= 2:
        ctx.nontrivial(s)


def ast(e):
    return shunting_yard_ast(tokenizer_alg(e), MAP_OPERATORS_ALG)[0]


def written(ctx):
    """Line-based DOT text as a person writes it."""
    r = ctx.rng
    n, E = gen.digraph(r, n_max=6)
    directed = r.random() < 0.7
    names = r.sample(range(0, 200), n)
    keys = ["label", "color", "fontsize", "xlabel", "URL", "k_1"]
    sp = lambda: r.choice(["", "", " ", "  ", "\t"])
    many = r.random() < 0.03  # attributes
    if many:
        ctx.ev("many attributes")

    def value():
        k = r.random()
        if many and r.random() < 0.05:
            v = "".join(r.choice("abz09_.") for _ in range(r.choice([40, 300, 1500])))
            return r.choice([v, f'"{v}"', f"'{v}'", f"<{v}>"]), v
        if k < 0.3:
            v = "".join(r.choice("abz09_.") for _ in range(r.randint(1, 5)))
            return v, v
        if k < 0.55:
            v = "".join(r.choice("ab [];=,<>é-") for _ in range(r.randint(0, 6)))
            return f'"{v}"', v
        if k < 0.75:
            v = "".join(r.choice("ab [];=,<>é-") for _ in range(r.randint(0, 6)))
            return f"'{v}'", v
        v = "".join(r.choice("ab ;=,é-") for _ in range(r.randint(1, 6)))
        return f"<{v}>", v

    def opts():
        at = {}
        if r.random() < 0.3:
            return "", at
        parts = []
        for k in r.sample(keys, r.randint(0, 3)) + [f"m{j}" for j in range(r.choice([3, 15, 75]) if many and r.random() < 0.5 else 0)]:
            t, v = value()
            at[k] = v
            parts.append(f"{k}{r.choice(['', '', ' '])}={r.choice(['', '', ' '])}{t}")
        sep = r.choice([" ", ", ", "; ", ";", ","])
        return f"{sp()}[{sp()}{sep.join(parts)}{sp()}]", at

    lines, va, ea = [], {}, []
    for i, u in enumerate(names):
        t, at = opts()
        va[i] = at
        lines.append(f"{sp()}{u}{t}{sp()};")
    arc = "->" if directed else "--"
    for u, v in E:
        t, at = opts()
        ea.append((u, v, at))
        lines.append(f"{sp()}{names[u]}{sp()}{arc}{sp()}{names[v]}{t}{sp()};")
    head = [("digraph" if directed else "graph") + " G {"] + r.sample(["  rankdir=LR;", "  node [shape=circle];", "", "  // 12 -> 13", "  graph [bgcolor=red];", "  edge [color=\"blue\"]"], r.randint(0, 3))
    s = "\n".join(head + lines + ["}"]) + r.choice(["", "\n"])
    if r.random() < 0.2:
        s = s.replace("\n", "\r\n")
    ctx.note(text=s)
    h = (DirectedGraph if directed else UndirectedGraph)()
    dv, de = {}, {}
    read_graphviz_dp(s if r.random() < 0.5 else s.split("\n"), h, dv, de)
    hv, he = list(h.vertices()), list(h.edges())
    ctx.eq((len(hv), len(he)), (n, len(E)), "size of the graph read")
    fr = lambda d: tuple(sorted(d.items()))

    def both(es):
        out = []
        for u, v, a in es:
            out.append((u, v, a))
            if not directed and u != v:
                out.append((v, u, a))
        return out

    m = isomorphism(range(n), both([(u, v, fr(a)) for u, v, a in ea]), hv, both([(h.source(e), h.target(e), fr(de.get(e, {}))) for e in he]),
                    {u: fr(a) for u, a in va.items()}, {u: fr(dv.get(u, {})) for u in hv})
    ctx.expect(m is not None, "the graph read is not the one described", vertices=dv, edges=[(e, de.get(e)) for e in he], expected=(va, ea))
    # what the visitor of the reader is told
    class Rec(ReadGraphvizVisitor):
        def __init__(self):
            super().__init__()
            self.v, self.e, self.other = [], [], []

        def on_vertex(self, line, u, g, o):
            x = super().on_vertex(line, u, g, o)
            self.v.append((line, int(u), x))
            return x

        def on_edge(self, line, u, v, g, o):
            e = super().on_edge(line, u, v, g, o)
            self.e.append((line, int(u), int(v), e))
            return e

        def on_else(self, line):
            self.other.append(line)
            return super().on_else(line)

    h1, vis = (DirectedGraph if directed else UndirectedGraph)(), Rec()
    read_graphviz(s.split("\n"), h1, vis)
    at = {u: x for _, u, x in vis.v}
    ctx.eq([u for _, u, _ in vis.v], names, "vertices announced by the reader")
    ctx.eq(sorted(at.values()), sorted(h1.vertices()), "vertices given by on_vertex")
    ctx.eq([(u, v) for _, u, v, _ in vis.e], [(names[u], names[v]) for u, v in E], "edges announced by the reader")
    for _, u, v, e in vis.e:
        ends = (h1.source(e), h1.target(e))
        ctx.expect(ends == (at[u], at[v]) or not directed and ends == (at[v], at[u]), "edge given by on_edge", edge=e, u=u, v=v)
    ctx.eq(len({e for *_, e in vis.e}), h1.num_edges(), "edges given by on_edge")
    told = [x[0] for x in vis.v] + [x[0] for x in vis.e]
    ctx.eq(told, [x.strip() for x in lines], "lines of vertices and edges")
    ctx.eq(vis.other, [x.strip() for x in head + ["}"] + s.splitlines()[len(head) + len(lines) + 1:]] + ([""] if s.endswith("\n") else []), "other lines")
    ctx.ev("visitor of the reader")
    # without attributes
    h2 = (DirectedGraph if directed else UndirectedGraph)()
    read_graphviz_dp(s, h2)
    ctx.eq((h2.num_vertices(), h2.num_edges()), (n, len(E)), "size of the graph read without attributes")
    ctx.ev("written")
    if len(E) >= 2:
        ctx.nontrivial(s)


NS = "{http://www.w3.org/2000/svg}"


def squeeze(s):
    return "".join(s.split()).replace("\xa0", "")


def svg(ctx):
    """The picture made by the dot program."""
    r = ctx.rng
    g = random_graph(ctx)
    vs, es = list(g.vertices()), list(g.edges())

    def label():
        while True:
            s = text(r, ctx)
            if not any(0xD800 <= ord(c) < 0xE000 for c in s):
                return s

    vl = {u: label() for u in vs}
    el = {e: label() for e in es}
    dpv = {"label": make_func_property_map(vl.__getitem__)}
    dpe = {"label": make_func_property_map(el.__getitem__)}
    ctx.note(vlabels=vl, elabels=list(el.values()), edges=[(g.source(e), g.target(e)) for e in es])
    ctx.note(text=g.to_dot(dpv=dpv, dpe=dpe))
    out = graph_to_html(g, dpv=dpv, dpe=dpe)
    ctx.expect(isinstance(out, str), "the picture is not a string")
    root = ET.fromstring(out[out.index("<svg"):])
    nodes, edges = {}, []
    for x in root.iter(NS + "g"):
        if x.get("class") in ("node", "edge"):
            title = x.find(NS + "title").text
            t = "".join("".join(y.itertext()) for y in x.iter(NS + "text"))
            if x.get("class") == "node":
                ctx.expect(title not in nodes, "a vertex drawn twice", vertex=title)
                nodes[title] = t
            else:
                edges.append((title, t))
    ctx.eq(set(nodes), {str(u) for u in vs}, "vertices drawn")
    arc = "->" if g.directed else "--"
    norm = lambda t: t if g.directed else arc.join(sorted(t.split(arc)))
    ctx.eq(Counter(norm(t) for t, _ in edges), Counter(norm(f"{g.source(e)}{arc}{g.target(e)}") for e in es), "edges drawn")

    def same(shown, s):
        if any(ord(c) < 32 or c == "\\" for c in s):
            return True
        return squeeze(shown) == squeeze(dot.TAG.sub("", s))

    for u in vs:
        ctx.expect(same(nodes[str(u)], vl[u]), "label drawn on a vertex", vertex=u, drawn=nodes[str(u)], label=vl[u])
    want = Counter((norm(f"{g.source(e)}{arc}{g.target(e)}"), squeeze(dot.TAG.sub("", el[e]))) for e in es if not any(ord(c) < 32 or c == "\\" for c in el[e]))
    got = Counter((norm(t), squeeze(x)) for t, x in edges)
    ctx.expect(not want - got, "labels drawn on the edges", missing=want - got, drawn=got)
    ctx.ev("svg")
    if r.random() < 0.3:  # the picture follows the graph
        vl[g.add_vertex()] = "new"
        out = graph_to_html(g, dpv=dpv, dpe=dpe)
        root = ET.fromstring(out[out.index("<svg"):])
        drawn = sorted(x.find(NS + "title").text for x in root.iter(NS + "g") if x.get("class") == "node")
        ctx.eq(drawn, sorted(map(str, g.vertices())), "vertices drawn after an addition")
    if len(es) >= 2:
        ctx.nontrivial(repr(vl), repr(el.values()))


def render(ctx):
    """Files and formats; text that is not DOT is refused."""
    r = ctx.rng
    g = random_graph(ctx, DirectedGraph)
    s = g.to_dot(dpv={"label": make_func_property_map(lambda u: f"é{u}")})
    ctx.note(text=s)
    fmt = ["svg", "png", "plain", "dot"][ctx.i % 4]
    engine = r.choice([None, "dot", "neato", "circo", "twopi"])
    kw = {"engine": engine} if engine else {}
    want = dot.draw(s, engine, fmt)
    svg = dot.svg(want.decode("utf-8")) if fmt == "svg" else None

    def same(data, what):
        """An SVG picture may come with or without its prolog."""
        data = data.encode("utf-8") if isinstance(data, str) else data
        ok = data.strip() == want.strip() if svg is None else svg in data.decode("utf-8") and dot.svg(data.decode("utf-8")) == svg
        ctx.expect(ok, what, format=fmt, engine=engine, size=len(data), expected=len(want))

    same(run_graphviz(s, engine, fmt), "run_graphviz does not give the picture")
    if fmt == "svg":
        same(run_graphviz(s, **kw), "run_graphviz does not give the picture")
    tmp = tempfile.mkdtemp()
    path = os.path.join(tmp, "out." + fmt)
    fkw = kw if fmt == "svg" and r.random() < 0.5 else {**kw, "format": fmt}
    ok = write_graphviz(s, path, **fkw)
    ctx.expect(ok is True, "write_graphviz does not answer True")
    same(open(path, "rb").read(), "the file is not the picture")
    if fmt != "svg" or ctx.rng.random() < 0.5:
        with open(path, "w", encoding="utf-8") if fmt == "svg" else open(path, "wb") as f:
            write_graphviz(s, f, format=fmt, **kw)
        same(open(path, "rb").read(), "the file given open does not receive the picture")
        ctx.ev("open file")
    if fmt == "svg":
        other = DirectedGraph(1).to_dot()
        ctx.expect(write_graphviz(other, path, **kw) is True, "write_graphviz does not answer True")
        write_graphviz(s, path, **kw)
        same(open(path, "rb").read(), "the file written again is not the picture")
    os.remove(path)
    os.rmdir(tmp)
    ctx.ev("written file")
    if fmt == "svg":
        x = dot_to_svg(s, **kw)
        ctx.eq(x.strip(), svg, "dot_to_svg does not give the SVG element")
        same(dotstr_to_html(s, **kw), "dotstr_to_html does not hold the SVG element")
        y = graph_to_html(g, dpv={"label": make_func_property_map(lambda u: f"é{u}")}, **kw)
        same(y, "graph_to_html does not hold the picture of the graph")
    ctx.ev("other engine", int(engine not in (None, "dot")))
    err, old = os.open(os.devnull, os.O_WRONLY), os.dup(2)
    os.dup2(err, 2)
    try:
        ctx.raises(RuntimeError, lambda: run_graphviz("digraph G { 0 [label=<<b>>]; -> }"), "invalid DOT accepted")
    finally:
        os.dup2(old, 2)
        os.close(old)
        os.close(err)
    ctx.ev("invalid refused")
    ctx.nontrivial(s, fmt)


def escaping(ctx):
    """The escaping functions themselves, on every character in turn."""
    lo = ctx.i * 64
    for i in range(lo, lo + 64):
        if 0xD800 <= i < 0xE000:
            continue
        c = chr(i)
        out = graphviz_escape_char(c)
        ctx.expect(isinstance(out, str) and out and all(ord(x) >= 32 for x in out), "escaped character", char=i, out=out)
        shows(ctx, dot.Html(out), c, "an escaped character shows another one", char=i)
        shows(ctx, dot.Html(graphviz_escape_html("a" + c + "<b>")), "a" + c + "<b>", "an escaped string shows another one", char=i)
    ctx.nontrivial(lo)


def large(ctx):
    """Many vertices, high degrees, many parallel edges; long labels; read back exactly."""
    r = ctx.rng
    n, E = gen.big_digraph(r, scale=r.choice([0.2, 0.5, 1]))
    G = r.choice([DirectedGraph, UndirectedGraph])
    g, _, _ = gen.build(G, n, E, r, churn=r.random() < 0.2 and G is DirectedGraph)
    vs, es = list(g.vertices()), list(g.edges())
    vl = {u: text(r, ctx) for u in vs}
    for u in vs:
        if vl[u].isprintable() and " " not in vl[u] and r.random() < 0.2:
            vl[u] *= 40
    el = {e: text(r, ctx) if r.random() < 0.3 else "ab"[i % 2] for i, e in enumerate(es)}
    ctx.note(graph=[(g.source(e), g.target(e)) for e in es], vlabels=vl, elabels=list(el.values()))
    s = g.to_dot(dpv={"label": make_func_property_map(vl.__getitem__), "tooltip": make_func_property_map(lambda u: f"v{u}")},
                 dpe={"label": make_func_property_map(el.__getitem__), "comment": make_func_property_map(lambda e: f"e{es.index(e)}")})
    judge_text(ctx, g, s, vl.__getitem__, el.__getitem__, vattrs={"tooltip": lambda u: f"v{u}"})
    h = G()
    dv, de = {}, {}
    read_graphviz_dp(s, h, dv, de)
    ctx.eq((h.num_vertices(), h.num_edges()), (len(vs), len(es)), "size of the graph read back")
    back = {u: int(dv[u]["tooltip"][1:]) for u in h.vertices()}
    ctx.eq(sorted(back.values()), sorted(vs), "vertices read back")
    for e in h.edges():
        e0 = es[int(de[e]["comment"][1:])]
        ends, want = (back[h.source(e)], back[h.target(e)]), (g.source(e0), g.target(e0))
        ctx.expect(ends == want or not g.directed and ends == want[::-1], "ends of an edge read back", read=ends, expected=want)
        if safe(el[e0]):
            ctx.eq(de[e].get("label"), el[e0], "label read back on an edge")
    ctx.eq(sorted(int(d["comment"][1:]) for d in de.values()), list(range(len(es))), "edges read back")
    ctx.ev("large graphs")
    ctx.nontrivial(s[:3000])


FAMILIES = [
    Fam("large", large, 240, 4000, cpu_s=60),
    Fam("export", export, 12000, 240000),
    Fam("automata", automata, 8000, 160000),
    Fam("written", written, 10000, 200000),
    Fam("svg", svg, 160, 3000, cpu_s=40),
    Fam("render", render, 16, 160, cpu_s=40),
    Fam("escaping", escaping, 64, 1024),
]
