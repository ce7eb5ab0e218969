"""C32: histories of styled exports (DOT and JSON), each judged element by element, nothing being altered."""
import copy
import json
from collections import Counter, defaultdict

from pybgl.automaton import Automaton
from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.graph_dp import GraphDp
from pybgl.graphviz import GraphvizStyle, enrich_kwargs, graph_to_html, read_graphviz_dp
from pybgl.incidence_automaton import IncidenceAutomaton
from pybgl.incidence_graph import IncidenceGraph
from pybgl.nfa import Nfa
from pybgl.node_automaton import NodeAutomaton
from pybgl.property_map import (
    ConstantPropertyMap, IdentityPropertyMap, ReadPropertyMap, identity_property_map, make_assoc_property_map, make_func_property_map,
)
from pybgl.trie import Trie

from .. import dot, gen
from ..core import Fam
from ..nfaref import build_nfa, random_nfa

ANCHORS = ["graph_dp.py", "graphviz_impl.py", "property_map.py", "singleton.py", "graph.py"]
RULE = (
    "A case is a graph of any class with random property maps (dictionary, function, constant, identity) and a random history of DOT and JSON exports with random "
    "defaults, extra style, overriding arguments, vertex/edge restrictions (list, set, generator) and default-style changes; each output is parsed (independent DOT "
    "parser, json) and compared value by value on each element; fingerprints of the graph, maps, arguments and global style are compared around each export. "
    "Non-trivial: at least 3 exports on at least 2 edges; distinct by description."
)
REQUIRED = ["dot", "json", "json restricted", "restricted", "empty restriction", "overriding argument", "overriding extra style", "style given", "global extra style", "defaults", "extra style", "style changed", "repeated export",
            "shared arguments", "quoted value", "None value", "automaton export", "map kinds", "directed", "undirected", "picture", "large graphs"]
ASSUMPTIONS = ["attribute names are identifiers in DOT", "vertices are integers", "the vertices and edges requested belong to the graph"]

VKEYS = ["label", "color", "tooltip", "comment", "k_1", "xlabel", "URL"]
CHARS = ["ab01", "ab \"'", "<>&[]{};=,", "é雪ß\U0001f600", "a %s%(x)s{}{0}", "\t\n\x01\x1f\x7f", "-> ;\n "]


def value(r, back=False):
    if r.random() < 0.15:
        return r.choice([0, 1, 2.5, -3, True, (1, 2), frozenset([3])])
    s = "".join(r.choice(r.choice(CHARS)) for _ in range(r.choice([0, 1, 3, 6])))
    if back and r.random() < 0.3:
        s = s + r.choice(["\\", "\\\"", "\\n", "\\u", "/\\\\"]) + r.choice(["", "z"])
    if s == "":
        return r.choice(["", " "])
    return s


class Counting(ReadPropertyMap):
    """A property map of the user's own."""

    def __init__(self, f):
        self.f = f
        self.writes = 0

    def __getitem__(self, k):
        return self.f(k)

    def __setitem__(self, k, v):
        self.writes += 1


def make_map(ctx, r, xs, back=False, none=False):
    """(map, function giving the value expected for an element)"""
    vals = {x: value(r, back) for x in xs}
    if none:
        for x in xs:
            if r.random() < 0.3:
                vals[x] = None
                ctx.ev("None value")
    k = r.randrange(6)
    ctx.ev("map kinds")
    if k == 0:
        d = defaultdict(lambda: None, vals)
        return make_assoc_property_map(d), dict(d).__getitem__
    if k == 1:
        return make_func_property_map(vals.__getitem__), vals.__getitem__
    if k == 2:
        c = value(r, back)
        return ConstantPropertyMap(c), lambda x: c
    if k == 3:
        return r.choice([identity_property_map, IdentityPropertyMap])(), lambda x: x
    if k == 4:
        d = defaultdict(lambda: "dflt")
        d.update({x: v for x, v in vals.items() if r.random() < 0.6})
        e = dict(d)
        return make_assoc_property_map(d), lambda x: e.get(x, "dflt")
    return Counting(vals.__getitem__), vals.__getitem__


STYLE = ("graph", "node", "edge", "extra_style")


def style_state():
    return {k: copy.deepcopy(getattr(GraphvizStyle, k)) for k in STYLE}


def style_restore(objs, st):
    for k in STYLE:
        setattr(GraphvizStyle, k, objs[k])
        objs[k].clear()
        (objs[k].extend if isinstance(objs[k], list) else objs[k].update)(st[k])


def with_style(fn):
    def run(ctx):
        objs = {k: getattr(GraphvizStyle, k) for k in STYLE}
        st = style_state()
        try:
            return fn(ctx)
        finally:
            style_restore(objs, st)

    return run


def fingerprint(g):
    x = [type(g).__name__, sorted(map(repr, g.vertices())), sorted(map(repr, g.edges()))]
    for name in ("adjacencies", "in_edges_map", "pmap_vsymbol", "pmap_final", "pmap_vlabel", "pmap_elabel"):
        a = getattr(g, name, None)
        if a is not None:
            x.append((name, repr(a) if not hasattr(a, "pmap") else repr(getattr(a, "pmap"))))
    return x


def shown(ctx, at, key, want, what, **kv):
    """The attribute of the element displays the value its map gives."""
    if want is None:
        ctx.expect(key not in at, f"{what}: an attribute without a value is written", attribute=key, found=at.get(key), **kv)
        return
    ctx.expect(key in at, f"{what}: an attribute is missing", attribute=key, expected=want, found=at, **kv)
    s = str(want)
    if key == "label":
        try:
            ok = dot.shows(at[key], s)
        except dot.Bad as e:
            ctx.fail(f"{what}: {e}", attribute=key, **kv)
        ctx.expect(ok, f"{what}: label", found=at[key], expected=s, **kv)
    else:
        got = html_plain(at[key])
        ctx.expect(got == s, f"{what}: value of an attribute", attribute=key, found=at[key], expected=s, **kv)


def html_plain(v):
    return dot.html_text(v) if isinstance(v, dot.Html) else str(v)


def same_default(ctx, got, want, what):
    ctx.eq(set(got), set(want), f"names of the default attributes ({what})")
    for k, v in want.items():
        ctx.expect(html_plain(got[k]) == str(v), f"default attribute ({what})", attribute=k, found=got[k], expected=v)


def judge_dot(ctx, g, s, vs, es, dpv, dpe, defaults, extra):
    ctx.note(dot=s)
    try:
        d = dot.Dot(s)
    except dot.Bad as e:
        ctx.fail(f"invalid DOT: {e}")
    ctx.eq(d.directed, g.directed, "direction")
    ctx.ev("directed" if d.directed else "undirected")
    ctx.expect(not d.order, "defaults after the elements they apply to")
    for kind, want in defaults.items():
        same_default(ctx, d.defaults[kind], want, kind)
    ctx.eq(d.bare, extra, "graph attributes set by the extra style")
    ctx.eq(Counter(str(n) for n, _ in d.nodes), Counter(map(str, vs)), "vertices listed")
    by = {str(n): a for n, a in d.nodes}
    for u in vs:
        ctx.expect(set(by[str(u)]) <= set(dpv), "an attribute that no map gives", vertex=u, found=by[str(u)], maps=list(dpv))
        for k, f in dpv.items():
            shown(ctx, by[str(u)], k, f(u), "vertex", vertex=u)
    norm = (lambda a, b: (a, b)) if g.directed else (lambda a, b: tuple(sorted((a, b))))
    left = defaultdict(list)
    for a, _, b, at in d.edges:
        left[norm(str(a), str(b))].append(at)
    ctx.eq(Counter({k: len(v) for k, v in left.items()}), Counter(norm(str(g.source(e)), str(g.target(e))) for e in es), "edges listed")

    def fits(at, e):
        if not set(at) <= set(dpe):
            return False
        for k, f in dpe.items():
            w = f(e)
            if w is None:
                if k in at:
                    return False
            elif k not in at:
                return False
            elif k == "label":
                try:
                    if not dot.shows(at[k], str(w)):
                        return False
                except dot.Bad:
                    return False
            elif html_plain(at[k]) != str(w):
                return False
        return True

    groups = defaultdict(list)
    for e in es:
        groups[norm(str(g.source(e)), str(g.target(e)))].append(e)
    for k, l in groups.items():
        bad = dot.assign(l, left[k], lambda e, at: fits(at, e))
        if bad:
            ctx.fail("no edge of the text has the values of this edge", edge=bad[0], expected={x: f(bad[0]) for x, f in dpe.items()}, found=left[k])
        ctx.ev("judgements", len(l))


def unique(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError(f"key {k!r} given twice")
        d[k] = v
    return d


def judge_json(ctx, g, s, vs, es, dpv, dpe):
    ctx.note(json=s)
    try:
        d = json.loads(s, object_pairs_hook=unique)
    except ValueError as e:
        ctx.fail(f"invalid JSON: {e}")
    ctx.eq(set(d), {"graph_type", "vertices", "edges"}, "members of the JSON object")
    ctx.eq(d["graph_type"], "digraph" if g.directed else "graph", "graph type")
    enc = lambda v: json.dumps(v, sort_keys=True)
    want_v = Counter(enc({"id": u, **{k: str(f(u)) for k, f in dpv.items()}}) for u in vs)
    got_v = Counter(enc({k: (str(v) if k != "id" else v) for k, v in x.items()}) for x in d["vertices"])
    ctx.eq(got_v, want_v, "vertices of the JSON")
    want_e = Counter()
    for e in es:
        a, b = g.source(e), g.target(e)
        if not g.directed:
            a, b = sorted((a, b))
        want_e[enc({"source": a, "target": b, **{k: str(f(e)) for k, f in dpe.items()}})] += 1
    got_e = Counter()
    for x in d["edges"]:
        y = {k: (str(v) if k not in ("source", "target") else v) for k, v in x.items()}
        if not g.directed:
            y["source"], y["target"] = sorted((y["source"], y["target"]))
        got_e[enc(y)] += 1
    ctx.eq(got_e, want_e, "edges of the JSON")


def random_defaults(r, kind):
    keys = {"graph": ["rankdir", "bgcolor", "fontcolor", "splines", "label"], "node": ["shape", "color", "fontcolor", "style"], "edge": ["color", "arrowhead", "style"]}[kind]
    return {k: r.choice(["red", "LR", "box", "a \"b\"", "x;y", "", 3, "é"]) for k in r.sample(keys, r.randint(1, len(keys)))}


def restriction(ctx, r, xs):
    """(argument or None, elements expected)"""
    k = r.random()
    if k < 0.5:
        return None, list(xs)
    sub = [x for x in xs if r.random() < 0.6]
    if k < 0.6:
        sub = []
        ctx.ev("empty restriction")
    r.shuffle(sub)
    ctx.ev("restricted")
    return r.choice([list, tuple, set, lambda l: (x for x in l), iter])(sub), sub


def copies(d):
    return {k: dict(v) if isinstance(v, dict) else v for k, v in d.items()}


def styled(ctx):
    r = ctx.rng
    G = r.choice([DirectedGraph, UndirectedGraph, IncidenceGraph])
    n, E = gen.digraph(r, n_max=5)
    g, ids, _ = gen.build(G, n, E, r, churn=r.random() < 0.3)
    vs, es = list(g.vertices()), list(g.edges())
    back = r.random() < 0.3  # backslashes: JSON only
    none = not back and r.random() < 0.3  # None: DOT only

    def maps(xs, k):
        m, f = {}, {}
        for key in r.sample(VKEYS, min(k, len(VKEYS))) + [f"more{j}" for j in range(k - len(VKEYS))]:
            m[key], f[key] = make_map(ctx, r, xs, back, none)
        return m, f

    many = r.random() < 0.01
    dpv, fv = maps(vs, r.choice([0, 30, 80]) if many else r.randint(0, 3))
    dpe, fe = maps(es, r.choice([0, 30, 80]) if many else r.randint(0, 3))
    dg = random_defaults(r, "graph") if r.random() < 0.5 else None
    dv = random_defaults(r, "node") if r.random() < 0.5 else None
    de = random_defaults(r, "edge") if r.random() < 0.5 else None
    extra = r.choice([None, None, [], ["splines=ortho"], ["splines=line", "nodesep=\"0.5\""]])
    if many:
        extra = [f"extra{j}=v{j}" for j in range(r.choice([20, 80]))]
    if dg or dv or de:
        ctx.ev("defaults")
    if extra:
        ctx.ev("extra style")
    if r.random() < 0.2:
        change_style(ctx, r)
    dflt = {"graph": dict(dg) if dg else dict(GraphvizStyle.graph), "node": dict(dv) if dv else dict(GraphvizStyle.node), "edge": dict(de) if de else dict(GraphvizStyle.edge)}
    given = {"dpv": dpv, "dpe": dpe, "dg": dg, "dv": dv, "de": de}
    given0 = copies(given)
    extra0 = list(extra) if extra is not None else None
    ctx.note(graph=(G.__name__, vs, es), dpv={k: {u: f(u) for u in vs} for k, f in fv.items()}, dpe={k: {e: f(e) for e in es} for k, f in fe.items()}, defaults=(dg, dv, de, extra))
    gdp = GraphDp(g, dpv or None, dpe or None, dg, dv, de, extra)
    extras = extra if extra else []
    ctx.eq((dict(gdp.get_dpv()), dict(gdp.get_dpe()), dict(gdp.get_dg()), dict(gdp.get_dv()), dict(gdp.get_de())),
           (dpv, dpe, dflt["graph"], dflt["node"], dflt["edge"]), "what the styled graph holds")
    bare = {}
    for x in extras:
        k, v = x.split("=")
        bare[k] = v.strip('"')
    before = fingerprint(g)
    elems = [(k, m, vs) for k, m in dpv.items()] + [(k, m, es) for k, m in dpe.items()]
    values = lambda: [(k, [repr(m[x]) for x in xs]) for k, m, xs in elems]
    raw = values() if r.random() < 0.5 else None
    nexp = r.randint(2, 6)
    first = None
    for i in range(nexp):
        if not first and i and r.random() < 0.2:
            change_style(ctx, r)
        st = style_state()
        avs, wvs = restriction(ctx, r, vs)
        aes, wes = restriction(ctx, r, es)
        if r.random() < 0.4 and not none:
            ctx.note(vs=wvs, es=wes)
            kw = {}
            if avs is not None:
                kw["vs"] = avs
            if aes is not None:
                kw["es"] = aes
            judge_json(ctx, g, gdp.to_json(**kw), wvs, wes, fv, fe)
            ctx.ev("json")
            if kw:
                ctx.ev("json restricted")
        elif back:
            judge_json(ctx, g, gdp.to_json(), vs, es, fv, fe)
            ctx.ev("json")
        else:
            kw, wd, wfv, wfe = {}, {k: dict(v) for k, v in dflt.items()}, dict(fv), dict(fe)
            for kind, key in (("graph", "dg"), ("node", "dv"), ("edge", "de")):
                if r.random() < 0.2:
                    kw[key] = random_defaults(r, kind)
                    wd[kind].update(kw[key])
                    ctx.ev("overriding argument")
            for key, xs, w in (("dpv", vs, wfv), ("dpe", es, wfe)):
                if r.random() < 0.2:
                    name = r.choice(VKEYS)
                    m, f = make_map(ctx, r, xs)
                    kw[key] = {name: m}
                    w[name] = f
                    ctx.ev("overriding argument")
            for kind in wd:
                wd[kind] = {**st[{"graph": "graph", "node": "node", "edge": "edge"}[kind]], **wd[kind]}
            args0 = copies(kw)
            full = dict(kw)
            wbare = bare
            if r.random() < 0.2:
                xs = r.choice([None, ["splines", "curved"], ["nodesep", "0.25"], ["splines", "ortho"]])
                full["extra_style"] = f"{xs[0]}={xs[1]}" if xs else xs
                if xs is not None:
                    wbare = {xs[0]: xs[1]}
                    ctx.ev("overriding extra style")
            if avs is not None:
                full["vs"] = avs
            if aes is not None:
                full["es"] = aes
            s = gdp.to_dot(**full)
            ctx.ev("dot")
            judge_dot(ctx, g, s, wvs, wes, wfv, wfe, wd, wbare)
            if any('"' in str(f(x)) for f, xs in [(f, wvs) for f in wfv.values()] + [(f, wes) for f in wfe.values()] for x in xs):
                ctx.ev("quoted value")
            ctx.eq(kw, args0, "exporting altered its arguments")
        ctx.eq(style_state(), st, "exporting altered the default style")
        ctx.eq(fingerprint(g), before, "exporting altered the graph")
        ctx.eq({k: given[k] for k in given}, given0, "exporting altered what the styled graph was built from")
        ctx.eq(extra, extra0, "exporting altered the extra style")
        if raw is not None:
            ctx.eq(values(), raw, "exporting altered a property map")
        ctx.expect(not any(m.writes for m in list(dpv.values()) + list(dpe.values()) if isinstance(m, Counting)), "exporting wrote in a property map")
    if not back:
        a, b = gdp.to_dot(), gdp.to_dot()
        ctx.eq(a, b, "two successive exports differ")
        ctx.ev("repeated export")
    if nexp >= 3 and len(es) >= 2:
        ctx.nontrivial(repr(ctx.witness))


def change_style(ctx, r):
    k = r.randrange(4)
    c = r.choice(["red", "#00ff00", "transparent", "grey50"])
    ctx.ev("style changed")
    if r.random() < 0.3:
        # a style of many attributes
        for d in (GraphvizStyle.graph, GraphvizStyle.node, GraphvizStyle.edge):
            for j in range(r.choice([0, 3, 12, 40])):
                d[f"s{j}"] = f"t{j}"
            for x in list(d):
                if r.random() < 0.2:
                    del d[x]
    if k == 0:
        GraphvizStyle.set_fg_color(c)
        for d, keys in ((GraphvizStyle.graph, ["fontcolor"]), (GraphvizStyle.node, ["color", "fontcolor"]), (GraphvizStyle.edge, ["color", "fontcolor"])):
            for x in keys:
                ctx.eq(d[x], c, "foreground color of the default style")
    elif k == 1:
        GraphvizStyle.set_bg_color(c)
        ctx.eq(GraphvizStyle.graph["bgcolor"], c, "background color of the default style")
    elif k == 2:
        GraphvizStyle.graph["rankdir"] = r.choice(["TB", "RL"])
    else:
        GraphvizStyle.node["shape"] = r.choice(["box", "circle"])


def plain(ctx):
    """Exports of graphs and automata given the same arguments, one after the other."""
    r = ctx.rng
    gs = []
    for _ in range(r.randint(2, 4)):
        k = r.randrange(6)
        if k == 0:
            n, E = gen.digraph(r, n_max=4)
            G = r.choice([DirectedGraph, UndirectedGraph, IncidenceGraph])
            gs.append((gen.build(G, n, E, r)[0], {}, {}))
        elif k in (1, 2):
            if k == 1:
                g, _ = gen.build_dfa(r.choice([Automaton, IncidenceAutomaton]), gen.dfa(r, n_max=4, alphabet=["a", "b"]), r)
            else:
                g = Trie()
                for _ in range(r.randint(0, 3)):
                    g.insert("".join(r.choice("ab") for _ in range(r.randint(0, 3))))
            gs.append((g, {"shape": shape(g)}, {"label": g.label}))
        elif k == 3:
            g = build_nfa(random_nfa(r, ["a", "b"], "\u03b5", n_max=4), Nfa, r)
            gs.append((g, {"shape": shape(g)}, {"label": (lambda g: lambda e: "<i>\u03b5</i>" if g.label(e) == g.epsilon else g.label(e))(g)}))
        else:
            x = gen.node_dfa(r, n_max=4)
            g, _ = gen.build_node_dfa(NodeAutomaton, x[0], x[1], r)
            gs.append((g, {"shape": shape(g), "label": (lambda g: lambda u: "^" if g.is_initial(u) else g.symbol(u))(g)}, {"label": g.label}))
        if k:
            ctx.ev("automaton export")
    kw, ov, oe = {}, {}, {}
    if r.random() < 0.8:
        kw["dpv"] = {}
        for name in r.sample(["shape", "color", "label", "tooltip"], r.randint(0, 2)):
            c = r.choice(["box", "red", "x"])
            kw["dpv"][name] = make_func_property_map(lambda u, c=c: f"{c}{u}")
            ov[name] = lambda u, c=c: f"{c}{u}"
    if r.random() < 0.8:
        kw["dpe"] = {}
        for name in r.sample(["color", "label", "comment"], r.randint(0, 2)):
            c = r.choice(["blue", "y"])
            kw["dpe"][name] = ConstantPropertyMap(c)
            oe[name] = lambda e, c=c: c
    for kind, key in (("graph", "dg"), ("node", "dv"), ("edge", "de")):
        if r.random() < 0.4:
            kw[key] = random_defaults(r, kind)
    bare = {}
    if r.random() < 0.3:
        kw["extra_style"] = "splines=ortho"
        bare = {"splines": "ortho"}
    if r.random() < 0.15:
        kw["graphviz_style"], own = r.choice([("", {}), ("node [shape=egg]", {"node": {"shape": "egg"}}), ('graph [rankdir=TB];\n  edge [color="#abcdef"]', {"graph": {"rankdir": "TB"}, "edge": {"color": "#abcdef"}})])
        ctx.ev("style given")
    else:
        own = None
    args0 = copies(kw)
    ctx.note(graphs=[type(g).__name__ for g, _, _ in gs], arguments=kw)
    if r.random() < 0.3:
        change_style(ctx, r)
    if r.random() < 0.15:
        GraphvizStyle.extra_style = ["nodesep=0.75", "splines=curved"][:r.randint(1, 2)]
        if own is None:
            bare = {**dict(x.split("=") for x in GraphvizStyle.extra_style), **bare}
        ctx.ev("global extra style")
    st = style_state()
    wd = {k: {**(st if own is None else own).get(k, {}), **kw.get(a, {})} for k, a in (("graph", "dg"), ("node", "dv"), ("edge", "de"))}
    edges = 0
    for g, dv_, de_ in gs * r.randint(1, 2):
        before = fingerprint(g)
        avs, wvs = restriction(ctx, r, list(g.vertices()))
        aes, wes = restriction(ctx, r, list(g.edges()))
        full = dict(kw)
        if avs is not None:
            full["vs"] = avs
        if aes is not None:
            full["es"] = aes
        s = g.to_dot(**full)
        ctx.ev("dot")
        judge_dot(ctx, g, s, wvs, wes, {**dv_, **ov}, {**de_, **oe}, wd, bare)
        ctx.eq(kw, args0, "exporting altered its arguments")
        ctx.eq(style_state(), st, "exporting altered the default style")
        ctx.eq(fingerprint(g), before, "exporting altered the graph")
        ctx.ev("shared arguments")
        edges += len(wes)
    if edges >= 2:
        ctx.nontrivial(repr(ctx.witness.get("dot")), len(gs))


def shape(g):
    return lambda u: "doublecircle" if g.is_final(u) else "circle"


def enrich(ctx):
    """enrich_kwargs completes, never overrides and never alters what it is given."""
    r = ctx.rng
    rd = lambda: {k: r.randint(0, 9) for k in r.sample("abcd", r.randint(0, 4))}
    base = rd()
    kw = {k: r.choice([rd(), rd(), None]) for k in r.sample(["dpv", "dpe", "dv"], r.randint(0, 3))}
    kw["vs"] = [1]
    key = r.choice(["dpv", "dpe", "dv"])
    b0, k0 = dict(base), copies(kw)
    out = enrich_kwargs(base, key, **kw)
    ctx.note(base=base, kwargs=kw, key=key, out=out)
    ctx.eq((base, kw), (b0, k0), "the arguments were altered")
    want = {**base, **(kw.get(key) or {})}
    ctx.eq(out.get(key) or {}, want, "completed dictionary")
    ctx.eq({k: v for k, v in out.items() if k != key}, {k: v for k, v in kw.items() if k != key}, "other arguments")


def picture(ctx):
    """Pictures of styled graphs hold the labels of their elements."""
    import xml.etree.ElementTree as ET
    r = ctx.rng
    n, E = gen.digraph(r, n_max=4)
    g, _, _ = gen.build(r.choice([DirectedGraph, UndirectedGraph]), max(n, 1), E, r)
    lab = {u: f"v{u}" + r.choice(["", "é", "<b>", "&"]).replace("<b>", "<b>x</b>") for u in g.vertices()}
    gdp = GraphDp(g, dpv={"label": make_assoc_property_map(defaultdict(str, lab))}, dg={"rankdir": "TB"})
    out = graph_to_html(gdp)
    ctx.note(labels=lab, out=out)
    root = ET.fromstring(out[out.index("<svg"):])
    ns = "{http://www.w3.org/2000/svg}"
    got = {}
    for x in root.iter(ns + "g"):
        if x.get("class") == "node":
            got[x.find(ns + "title").text] = "".join("".join(y.itertext()) for y in x.iter(ns + "text"))
    ctx.eq(got, {str(u): l.replace("<b>", "").replace("</b>", "") for u, l in lab.items()}, "labels drawn")
    ctx.ev("picture")


def large(ctx):
    """Many elements, in DOT and JSON, restricted or not."""
    r = ctx.rng
    n, E = gen.big_digraph(r, scale=r.choice([0.2, 0.5, 1]))
    G = r.choice([DirectedGraph, UndirectedGraph, IncidenceGraph])
    g, _, _ = gen.build(G, n, E, r, churn=r.random() < 0.2 and G is not UndirectedGraph)
    vs, es = list(g.vertices()), list(g.edges())
    ctx.note(graph=(G.__name__, vs, es))
    (mv, fv), (me, fe) = make_map(ctx, r, vs), make_map(ctx, r, es)
    gdp = GraphDp(g, {"label": mv}, {"tooltip": me})
    before, st = fingerprint(g), style_state()
    dflt = {k: dict(st[k]) for k in ("graph", "node", "edge")}
    for _ in range(2):
        avs, wvs = restriction(ctx, r, vs)
        aes, wes = restriction(ctx, r, es)
        kw = {}
        if avs is not None:
            kw["vs"] = avs
        if aes is not None:
            kw["es"] = aes
        if r.random() < 0.5:
            judge_json(ctx, g, gdp.to_json(**kw), wvs, wes, {"label": fv}, {"tooltip": fe})
        else:
            judge_dot(ctx, g, gdp.to_dot(**kw), wvs, wes, {"label": fv}, {"tooltip": fe}, dflt, {})
        ctx.eq(fingerprint(g), before, "exporting altered the graph")
        ctx.eq(style_state(), st, "exporting altered the default style")
    ctx.ev("large graphs")
    ctx.nontrivial(n, repr(E)[:1000])


FAMILIES = [
    Fam("large", with_style(large), 240, 4000, cpu_s=60),
    Fam("styled", with_style(styled), 16000, 320000),
    Fam("plain", with_style(plain), 12000, 240000),
    Fam("enrich", enrich, 800, 8000),
    Fam("picture", with_style(picture), 24, 240, cpu_s=40),
]
