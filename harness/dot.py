"""A small DOT parser (the subset of the language an exporter may use), independent of pybgl."""
import html
import re
import subprocess

TOKEN = re.compile(
    r"""\s+ | //[^\n]* | (?P<arc>->|--) | (?P<punct>[{}\[\]=;,])
      | (?P<id>[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))
      | "(?P<quoted>(?:[^"\\]|\\.)*)" """,
    re.X | re.S,
)


def draw(s, engine=None, fmt="svg"):
    """The picture of a text in DOT, asked to Graphviz directly (bytes)."""
    p = subprocess.run(["dot", "-T" + fmt, "-K" + (engine or "dot")], input=s.encode("utf-8"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode:
        raise Bad(p.stderr.decode("utf-8", "replace"))
    return p.stdout


def svg(doc):
    """The element inside an SVG document."""
    return doc[doc.index("<svg"):doc.rindex("</svg>") + 6]


class Bad(Exception):
    """The text is not valid DOT."""


class Html(str):
    """The inside of an HTML-like string."""


def lex(s):
    i, out = 0, []
    while i < len(s):
        if s[i] == "<":
            depth, j = 0, i
            while True:
                if j >= len(s):
                    raise Bad(f"unbalanced < at {s[i:i + 40]!r}")
                depth += {"<": 1, ">": -1}.get(s[j], 0)
                j += 1
                if depth == 0:
                    break
            if j == i + 2:
                raise Bad("empty HTML string")
            out.append(("id", Html(s[i + 1 : j - 1])))
            i = j
            continue
        m = TOKEN.match(s, i)
        if not m:
            raise Bad(f"unexpected text at {s[i:i + 40]!r}")
        i = m.end()
        k = m.lastgroup
        if k == "quoted":
            out.append(("id", m[k].replace('\\"', '"')))
        elif k == "id":
            out.append(("word", m[k]))
        elif k:
            out.append((m[k], m[k]))
    return out


class Dot:
    def __init__(self, s):
        self.toks = lex(s)
        self.p = 0
        self.nodes, self.edges = [], []  # (id, attrs) / (source, arc, target, attrs)
        self.defaults = {"graph": {}, "node": {}, "edge": {}}
        self.bare = {}
        self.order = []
        k = self.word()
        if k.lower() == "strict":
            raise Bad("strict graph: parallel edges are merged")
        if k.lower() not in ("graph", "digraph"):
            raise Bad(f"graph expected, not {k!r}")
        self.directed = k.lower() == "digraph"
        if self.peek() in ("word", "id"):
            self.next()
        self.need("{")
        while self.peek() != "}":
            if self.peek() == ";":
                self.next()
            else:
                self.stmt()
        self.next()
        if self.p != len(self.toks):
            raise Bad("text after the end of the graph")

    def peek(self):
        if self.p >= len(self.toks):
            raise Bad("unexpected end")
        return self.toks[self.p][0]

    def next(self):
        t = self.toks[self.p]
        self.p += 1
        return t

    def need(self, k):
        if self.peek() != k:
            raise Bad(f"{k!r} expected, not {self.toks[self.p]}")
        return self.next()[1]

    def word(self):
        return self.need("word")

    def ident(self):
        if self.peek() not in ("word", "id"):
            raise Bad(f"identifier expected, not {self.toks[self.p]}")
        return self.next()[1]

    def attrs(self):
        out = {}
        while self.peek() == "[":
            self.next()
            while self.peek() != "]":
                if self.peek() in (";", ","):
                    self.next()
                    continue
                k = self.ident()
                v = "true"
                if self.peek() == "=":
                    self.next()
                    v = self.ident()
                if k in out:
                    raise Bad(f"attribute {k!r} given twice")
                out[k] = v
            self.next()
        return out

    def stmt(self):
        t = self.toks[self.p]
        if t[0] == "word" and t[1].lower() in self.defaults:
            self.next()
            if self.nodes or self.edges:
                self.order.append("default after elements")
            self.defaults[t[1].lower()].update(self.attrs())
            return
        u = self.ident()
        if self.peek() == "=":
            self.next()
            self.bare[u] = self.ident()
            return
        if self.peek() in ("->", "--"):
            arc = self.next()[0]
            v = self.ident()
            if arc != ("->" if self.directed else "--"):
                raise Bad(f"arc {arc} in a {'di' if self.directed else ''}graph")
            self.edges.append((u, arc, v, self.attrs()))
            return
        self.nodes.append((u, self.attrs()))


TAGS = "b br font hr i img o s sub sup table td tr u vr".split()
TAG = re.compile(r"<\s*/?\s*(?:%s)(?:\s[^<>]*)?/?\s*>" % "|".join(TAGS), re.I)


def html_text(h):
    """What an HTML-like string displays, tags being kept as they are; Bad if it is malformed."""
    rest = TAG.sub("", h)
    if "<" in rest or ">" in rest:
        raise Bad(f"stray < or > in the HTML string {h!r}")
    if re.search(r"&(?!(?:#[0-9]+|#x[0-9a-fA-F]+|[A-Za-z]+);)", rest):
        raise Bad(f"stray & in the HTML string {h!r}")
    if any(ord(c) < 32 for c in h):
        raise Bad(f"control character in the HTML string {h!r}")
    return html.unescape(h)


def shows(value, s):
    """Does the attribute value display the string s (control characters being shown in any way)?"""
    got = html_text(value) if isinstance(value, Html) else value
    if not any(ord(c) < 32 for c in s):
        return got == s
    pattern = "".join(re.escape(c) if ord(c) >= 32 else r"[^\x00-\x1f]{1,8}?" for c in s)
    return re.fullmatch(pattern, got, re.S) is not None


def assign(items, found, fits):
    """An item that no assignment of distinct found values can serve, or None (maximum bipartite matching)."""
    who = {}

    def serve(x, seen):
        for j, y in enumerate(found):
            if j not in seen and fits(x, y):
                seen.add(j)
                if j not in who or serve(who[j], seen):
                    who[j] = x
                    return True
        return False

    for x in items:
        if not serve(x, set()):
            return (x,)
    return None
