"""C42: what is shown in a notebook or written for it is what was given."""
import os
import shutil
import subprocess
import sys
import tempfile
from html.parser import HTMLParser

from pybgl.graph import DirectedGraph, UndirectedGraph
from pybgl.html import beside, html
from pybgl.ipynb import background_template_html, display_body, display_svg, in_ipynb, ipynb_display_graph
from pybgl.property_map import make_func_property_map

from .. import core, dot
from ..core import Fam

ANCHORS = ["html.py", "ipynb.py"]
RULE = (
    "A case gives random texts (markup, percent signs, format directives, braces, quotes, non-ASCII characters, several lines) and colours to a display function inside an IPython "
    "session whose display channel is recorded; the published items, their order and the written file are compared with what was given, the wrapping markup being parsed. "
    "Non-trivial: the text holds a percent sign or a brace; distinct by texts."
)
REQUIRED = ["beside", "html", "background", "no background", "percent colour", "svg file", "body file", "graph", "graph background", "other engine", "in notebook", "not in notebook", "percent", "non-ascii", "other locale"]
ASSUMPTIONS = ["texts are well-formed fragments and do not start with http; colours hold no quote"]

TEXTS = ["", "x", "%", "%s", "%%", "100%", "%(title)s", "%d %s", "{0}", "{title}", "é€", "<b>bold</b>", "<svg>a</svg>", "a\nb", "  two  ", "\\n", "&amp;", "$x$", "'\"", "%(contents1)s", "\U0001F600", "{}"]
COLORS = ["white", "#ff0000", "rgb(1,2,3)", "hsl(120, 100%, 50%)", "rgb(10%, 20%, 30%)", "transparent", "hsl(0,0%,0%)"]
_shell = None


def text(ctx, r):
    t = "".join(r.choice(TEXTS) for _ in range(r.randint(1, 3)))
    if "%" in t:
        ctx.ev("percent")
    if not t.isascii():
        ctx.ev("non-ascii")
    return t


def shell():
    """An IPython session of this process, of the class seen inside notebooks."""
    global _shell
    if _shell is None:
        home = tempfile.mkdtemp()
        old = os.environ.get("IPYTHONDIR")
        os.environ["IPYTHONDIR"] = home
        try:
            from IPython.core.interactiveshell import InteractiveShell
            from traitlets.config import Config
            hook, ex = sys.displayhook, sys.excepthook
            conf = Config()
            conf.HistoryManager.enabled = False
            conf.HistoryManager.hist_file = ":memory:"
            cls = type("ZMQInteractiveShell", (InteractiveShell,), {"__module__": "ipykernel.zmqshell"})
            _shell = cls(config=conf)
            # registered as the current session
            for c in cls._walk_mro():
                c._instance = _shell
            sys.displayhook, sys.excepthook = hook, ex
        finally:
            os.environ.pop("IPYTHONDIR", None)
            if old is not None:
                os.environ["IPYTHONDIR"] = old
            shutil.rmtree(home, ignore_errors=True)
    return _shell


class Session:
    """Records what is published on the display channel."""

    def __enter__(self):
        from IPython.core.displaypub import CapturingDisplayPublisher
        s = shell()
        self.old, s.display_pub = s.display_pub, CapturingDisplayPublisher(parent=s)
        self.pub = s.display_pub
        return self

    def __exit__(self, *exc):
        shell().display_pub = self.old

    def shown(self):
        return [o["data"].get("text/html") for o in self.pub.outputs]


class Tree(HTMLParser):
    def __init__(self, s):
        super().__init__(convert_charrefs=False)
        self.tags, self.open = [], []
        self.feed(s)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, dict(attrs)))
        if tag not in ("meta", "br", "img"):
            self.open.append(tag)

    def handle_endtag(self, tag):
        if self.open and self.open[-1] == tag:
            self.open.pop()
        else:
            self.open.append("/" + tag)


def wrapped(ctx, out, inner, color, what):
    """`out` is `inner`, inside one element whose background is `color` if there is one."""
    if not color:
        ctx.eq(out, inner, what + ": the text shown without background")
        ctx.ev("no background")
        return
    ctx.ev("background")
    if "%" in color:
        ctx.ev("percent colour")
    i = out.find(inner, out.find(">") + 1)
    ctx.expect(i > 0, what + ": the text is not shown as it is", shown=out, text=inner)
    head, tail = out[:i], out[i + len(inner):]
    h = Tree(head)
    ctx.expect(h.open and any(squeeze(f"background-color:{color}") in squeeze(a.get("style") or "") for _, a in h.tags), what + ": the background is missing", shown=out, color=color)
    ctx.expect(not Tree(head + tail).open, what + ": the element of the background is not closed", shown=out)


def squeeze(s):
    return "".join(s.split())


def sides(ctx):
    r = ctx.rng
    parts = {}
    for k in ["contents1", "contents2", "title", "title1", "title2"]:
        if k.startswith("contents") or r.random() < 0.6:
            parts[k] = f"<i>{k}{r.randrange(1000)}:" + text(ctx, r) + "</i>"
    ctx.note(**parts)
    args = [parts["contents1"], parts["contents2"]]
    kw = {k: v for k, v in parts.items() if k.startswith("title")}
    out = beside(*args, **kw) if r.random() < 0.5 else beside(**parts)
    if len(parts) == 5 and r.random() < 0.5:
        out = beside(parts["contents1"], parts["contents2"], parts["title"], parts["title1"], parts["title2"])
    at = {}
    for k, v in parts.items():
        ctx.eq(out.count(v), 1, "a part is not placed once as it is", part=k, text=v, out=out)
        at[k] = out.find(v)
    order = [k for k in ("title", "title1", "contents1", "title2", "contents2") if k in parts]
    ctx.eq(sorted(at, key=at.get), order, "order of the parts")
    skeleton = out
    for v in parts.values():
        skeleton = skeleton.replace(v, "")
    t = Tree(skeleton)
    ctx.expect(not t.open, "the markup is not balanced", out=out)
    ctx.expect("%" not in skeleton.replace("100%", "").replace("50%", "").replace("2%", ""), "a directive is left in the markup", skeleton=skeleton)
    empty = Tree(beside("", ""))
    ctx.eq([x for x, _ in t.tags], [x for x, _ in empty.tags], "the markup depends on the texts")
    ctx.ev("beside")
    ctx.nontrivial(repr(parts))


def shows(ctx):
    r = ctx.rng
    s = "<p>" + text(ctx, r) + "</p>"
    ctx.note(text=s)
    with Session() as z:
        html(s)
    ctx.eq(z.shown(), [s], "what is shown is not the given text, once")
    ctx.ev("html")
    color = r.choice([None, ""] + COLORS)
    ctx.note(color=color)
    t = background_template_html(color) if r.random() < 0.7 else background_template_html(background_color=color)
    try:
        out = t % s
    except Exception as e:
        ctx.fail("the template does not take a text", template=t, error=e)
    wrapped(ctx, out, s, color, "template")
    if color is None:
        ctx.eq(background_template_html() % s, s, "the template without colour is not neutral")
    if "%" in s or "{" in s:
        ctx.nontrivial(s, color)


def files(ctx):
    r = ctx.rng
    s = "<svg><text>" + text(ctx, r) + "</text></svg>"
    color = r.choice([None, None, ""] + COLORS)
    body = ctx.i % 2
    tmp = tempfile.mkdtemp()
    try:
        path = os.path.join(tmp, r.choice(["g.svg", "a-b.html", "x", "100.svg"]))
        ctx.note(text=s, color=color, name=os.path.basename(path), body=body)
        if r.random() < 0.4:
            with open(path, "w") as f:
                f.write("old " * 200)
        f = display_body if body else display_svg
        with Session() as z:
            f(s, path, color) if color and r.random() < 0.5 else f(s, path, background_color=color) if color is not None else f(s, path)
        data = open(path, "rb").read().decode("utf-8")
        ctx.eq(os.listdir(tmp), [os.path.basename(path)], "files written")
        if body:
            doc = data.rstrip("\n")
            ctx.eq(doc.count(s), 1, "the file does not hold the body as it is", file=data)
            head, tail = doc.split(s)
            ctx.expect(Tree(head).open == ["html", "body"] and not Tree(head + tail).open, "the file is not an HTML document holding the body", file=data)
            ctx.expect(any(t == "meta" and (a.get("charset") or "").upper() == "UTF-8" for t, a in Tree(head).tags), "the document does not declare its encoding", file=data)
            ctx.ev("body file")
        else:
            doc = s
            ctx.expect(data in (s, s + "\n"), "the file does not hold the given text", file=data)
            ctx.ev("svg file")
        shown = z.shown()
        ctx.eq(len(shown), 2, "number of items shown", shown=shown)
        link = Tree(shown[0])
        ctx.expect([(t, a.get("href")) for t, a in link.tags if t == "a"] == [("a", path)] and not link.open, "the link does not lead to the file", link=shown[0], path=path)
        wrapped(ctx, shown[1], doc, color, "file")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if "%" in s or "{" in s:
        ctx.nontrivial(s, color, body)


def graphs(ctx):
    r = ctx.rng
    g = r.choice([DirectedGraph, UndirectedGraph])(r.randint(1, 4))
    for _ in range(r.randint(0, 4)):
        g.add_edge(r.randrange(g.num_vertices()), r.randrange(g.num_vertices()))
    lab = r.choice(["v%d", "%d%%", "{%d}", "é%d"])
    kw = {"dpv": {"label": make_func_property_map(lambda u: lab % u)}} if r.random() < 0.7 else {}
    if r.random() < 0.4:
        kw["dg"] = {"rankdir": "LR"}
    engine = r.choice([None, None, "neato", "circo"])
    color = r.choice([None] + COLORS)
    ctx.note(graph=repr(list(g.edges())), color=color, engine=engine, kw=sorted(kw))
    with Session() as z:
        ipynb_display_graph(g, **({"background_color": color} if color else {}), **({"engine": engine} if engine else {}), **kw)
    want = dot.draw(g.to_dot(**kw), engine).decode("utf-8")
    ctx.eq(len(z.shown()), 1, "number of items shown")
    if want not in z.shown()[0]:
        want = dot.svg(want)
    ctx.ev("other engine", int(engine is not None))
    wrapped(ctx, z.shown()[0], want, color, "graph")
    ctx.ev("graph background" if color else "graph")
    ctx.nontrivial(want, color)


def notebook(ctx):
    """Whether the code runs inside a notebook, in the three situations."""
    from IPython.core.interactiveshell import InteractiveShell
    s = shell()
    ctx.eq(in_ipynb(), True, "a notebook is not recognized")
    ctx.ev("in notebook")
    mro = list(type(s)._walk_mro())
    try:
        for c in mro:
            c._instance = None
        ctx.eq(in_ipynb(), False, "a notebook is recognized outside any session")
        plain = object.__new__(InteractiveShell)
        InteractiveShell._instance = plain
        ctx.eq(in_ipynb(), False, "a terminal session is taken for a notebook")
    finally:
        for c in mro:
            c._instance = s
    ctx.ev("not in notebook")
    ctx.nontrivial(ctx.i)


def locale(ctx):
    """The file is written in UTF-8 whatever the locale."""
    r = ctx.rng
    f = ["display_svg", "display_body"][ctx.i % 2]
    tmp = tempfile.mkdtemp()
    try:
        s = "<svg>" + text(ctx, r) + "\u00e9\u20ac</svg>"
        path = os.path.join(tmp, "f")
        code = f"import sys; sys.path.insert(0, {core.SRC!r}); sys.dont_write_bytecode = True; from pybgl.ipynb import {f}; {f}({ascii(s)}, {path!r})"
        env = {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "PATH": os.environ.get("PATH", ""), "HOME": tmp, "IPYTHONDIR": tmp}
        p = subprocess.run([sys.executable, "-c", code], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        ctx.note(function=f, text=ascii(s))
        ctx.expect(p.returncode == 0, "writing the file fails under another locale", error=p.stderr.decode("ascii", "replace")[-300:])
        ctx.expect(s.encode("utf-8") in open(path, "rb").read(), "the file is not in UTF-8")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.ev("other locale")
    ctx.nontrivial(s)


FAMILIES = [
    Fam("sides", sides, 12000, 240000),
    Fam("shows", shows, 9000, 180000),
    Fam("files", files, 6000, 120000),
    Fam("graphs", graphs, 200, 2000),
    Fam("notebook", notebook, 16, 64),
    Fam("locale", locale, 8, 64),
]
