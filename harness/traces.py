"""Recording visitors and trace checkers for the graph searches."""
from collections import Counter

from . import gen


def recorder(Base, names, log, tag=None):
    """An instance of a subclass of Base which logs the events `names` as (name, args...) before returning."""
    def mk(name):
        def f(self, *args, **kw):
            log.append((name,) + args if tag is None else (tag, name) + args)
        return f

    return type(tag or "Rec", (Base,), {n: mk(n) for n in names})()


BFS_EVENTS = ["initialize_vertex", "examine_vertex", "examine_edge", "tree_edge", "discover_vertex", "non_tree_edge", "gray_target", "black_target", "finish_vertex"]
DFS_EVENTS = ["initialize_vertex", "start_vertex", "discover_vertex", "examine_edge", "tree_edge", "back_edge", "forward_or_cross_edge", "finish_vertex"]


class Model:
    """The graph a trace is judged against, read once before the search."""

    def __init__(self, g, keep=lambda e: True):
        self.g = g
        self.vs = list(g.vertices())
        self.out = {u: [e for e in g.out_edges(u) if keep(e)] for u in self.vs}
        self.E = [(u, g.target(e)) for u in self.vs for e in self.out[u]]

    def dist(self, sources):
        d = {s: 0 for s in sources}
        todo = list(d)
        for u in todo:
            for e in self.out[u]:
                v = self.g.target(e)
                if v not in d:
                    d[v] = d[u] + 1
                    todo.append(v)
        return d

    def reach(self, sources):
        return gen.closure(None, self.E, sources)


def check_args(ctx, g, log):
    for x in log:
        ctx.expect(x[-1] is g, "an event does not carry the graph", event=x[0])


def check_bfs(ctx, g, m, log, sources, initialized):
    """log: events (name, subject, g)."""
    check_args(ctx, g, log)
    dist = m.dist(sources)
    k = 0
    init = []
    while k < len(log) and log[k][0] == "initialize_vertex":
        init.append(log[k][1])
        k += 1
    ctx.eq(Counter(init), Counter(m.vs if initialized else []), "initialize_vertex() events")
    srcs = []
    while k < len(log) and log[k][0] == "discover_vertex":
        srcs.append(log[k][1])
        k += 1
    ctx.eq(Counter(srcs), Counter(sources), "sources discovered first")
    WHITE, GRAY, BLACK = 0, 1, 2
    color = {v: GRAY for v in srcs}
    parent = {}
    later = []
    examined = []
    cur, edges, e = None, None, None
    depth = {s: 0 for s in srcs}
    while k < len(log):
        name, x = log[k][0], log[k][1]
        nxt = log[k + 1] if k + 1 < len(log) else (None, None)
        if name == "examine_vertex":
            ctx.expect(cur is None, "a vertex is examined before the previous one is finished", vertex=x, previous=cur)
            ctx.eq(color.get(x), GRAY, "a vertex examined is not in the queue", vertex=x)
            ctx.expect(x not in examined, "a vertex is examined twice", vertex=x)
            examined.append(x)
            cur, edges = x, []
        elif name == "finish_vertex":
            ctx.eq(x, cur, "finish_vertex() on another vertex than the one examined")
            ctx.eq(Counter(edges), Counter(m.out[cur]), "edges examined from a vertex are not its out-edges", vertex=cur)
            color[x] = BLACK
            cur = None
        elif name == "examine_edge":
            ctx.expect(cur is not None and g.source(x) == cur, "an edge is examined outside the examination of its source", edge=x)
            edges.append(x)
            v = g.target(x)
            c = color.get(v, WHITE)
            ctx.ev(f"target {'white gray black'.split()[c]}")
            if c == WHITE:
                want = [("tree_edge", x), ("discover_vertex", v)]
                color[v] = GRAY
                parent[v] = cur
                depth[v] = depth[cur] + 1
                later.append(v)
            else:
                want = [("non_tree_edge", x), ("gray_target" if c == GRAY else "black_target", x)]
            got = [(y[0], y[1]) for y in log[k + 1:k + 3]]
            ctx.eq(got, want, "classification of an examined edge", edge=x)
            k += 2
        else:
            ctx.fail("unexpected event", event=name, subject=x, at=k, next=nxt[0])
        k += 1
    ctx.expect(cur is None, "a vertex is never finished", vertex=cur)
    ctx.eq(set(examined), set(dist), "vertices visited are not those reachable")
    n = len(srcs)
    ctx.eq(Counter(examined[:n]), Counter(srcs), "sources are not examined first")
    ctx.eq(examined[n:], later, "vertices are not examined in the order of their discovery")
    ds = [dist[v] for v in examined]
    ctx.eq(ds, sorted(ds), "vertices are not visited in distance order")
    ctx.eq(depth, dist, "tree edges do not form shortest-path trees")
    ctx.ev("vertices visited", len(examined))
    ctx.ev("trace events", len(log))


def check_dfs(ctx, g, m, log, sources, whole):
    check_args(ctx, g, log)
    reach = m.reach(sources)
    WHITE, GRAY, BLACK = 0, 1, 2
    color = {}
    stack = []
    done_edges = {}
    roots = []
    k = 0
    while k < len(log):
        name, x = log[k][0], log[k][1]
        nx = [(y[0], y[1]) for y in log[k + 1:k + 3]]
        if name == "initialize_vertex":
            pass
        elif name == "start_vertex":
            ctx.expect(not stack, "start_vertex() within a traversal", vertex=x)
            ctx.expect(x in sources, "start_vertex() on a vertex that is not a source", vertex=x)
            ctx.expect(color.get(x, WHITE) == WHITE, "start_vertex() on a visited vertex", vertex=x)
            ctx.eq(nx[:1], [("discover_vertex", x)], "the vertex started is not discovered next")
            roots.append(x)
        elif name == "discover_vertex":
            ctx.expect(color.get(x, WHITE) == WHITE, "a vertex is discovered twice", vertex=x)
            prev = (log[k - 1][0], log[k - 1][1]) if k else None
            ctx.expect(prev == ("start_vertex", x) or (prev and prev[0] == "tree_edge" and g.target(prev[1]) == x),
                       "a vertex is discovered neither as a source nor by a tree edge", vertex=x, previous=prev)
            color[x] = GRAY
            stack.append(x)
            done_edges[x] = []
        elif name == "examine_edge":
            ctx.expect(stack and g.source(x) == stack[-1], "an edge is examined while its source is not the current vertex",
                       edge=x, current=stack[-1] if stack else None)
            done_edges[stack[-1]].append(x)
            v = g.target(x)
            c = color.get(v, WHITE)
            ctx.ev(f"target {'white gray black'.split()[c]}")
            want = [("tree_edge", x), ("discover_vertex", v)] if c == WHITE else [("back_edge" if c == GRAY else "forward_or_cross_edge", x)]
            ctx.eq(nx[:len(want)], want, "classification of an examined edge", edge=x)
        elif name in ("tree_edge", "back_edge", "forward_or_cross_edge"):
            ctx.expect(k and (log[k - 1][0], log[k - 1][1]) == ("examine_edge", x), "an edge is classified without being examined", edge=x)
        elif name == "finish_vertex":
            ctx.expect(stack and stack[-1] == x, "discovery and finish are not nested", vertex=x, open=list(stack))
            ctx.eq(Counter(done_edges[x]), Counter(m.out[x]), "edges examined from a vertex are not its out-edges", vertex=x)
            color[x] = BLACK
            stack.pop()
        k += 1
    ctx.expect(not stack, "vertices are never finished", open=stack)
    ctx.eq(set(color), set(reach), "vertices visited are not those reachable")
    if whole is not None:
        for s in sources:
            ctx.expect(s in color, "a source is not visited", source=s)
    ctx.ev("vertices visited", len(color))
    ctx.ev("trace events", len(log))
    ctx.ev("roots", len(roots))
