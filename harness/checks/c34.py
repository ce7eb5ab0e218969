"""C34: colour conversions compared with colorsys."""
import colorsys

from pybgl.color import hsl_to_hsv, hsv_to_hsl, html_color_to_graphviz, normalize_color_tuple

from ..core import Fam

ANCHORS = ["color.py"]
RULE = (
    "A case is a grid of colours (grid family: all hues of a step of 30 degrees with every 5th percent of the two other axes) or random colours, greys, black, white and pure ones "
    "included, converted both ways and compared, in RGB, with the colorsys module; or HTML colours (all spellings of hsl, names, hexadecimal). Non-trivial: "
    "neither grey, black nor white; distinct by colour."
)
REQUIRED = ["hsv", "hsl", "round trip", "grey", "black", "white", "html hsl", "html other"]
ASSUMPTIONS = ["components are in [0, 1] (hsl() of HTML: integers, within 0..360 and 0..100)"]
EPS = 1e-9


def near(a, b, eps=EPS):
    return all(abs(x - y) <= eps for x, y in zip(a, b))


def rgb_hsl(c):
    h, s, l = c
    return colorsys.hls_to_rgb(h, l, s)


def judge(ctx, h, a, b):
    """(h, a, b) taken as an HSV colour then as an HSL one."""
    ctx.note(colour=(h, a, b))
    grey = a == 0 or b == 0
    for name, conv, inv, rgb_in, rgb_out in (
        ("hsv", hsv_to_hsl, hsl_to_hsv, lambda c: colorsys.hsv_to_rgb(*c), rgb_hsl),
        ("hsl", hsl_to_hsv, hsv_to_hsl, rgb_hsl, lambda c: colorsys.hsv_to_rgb(*c)),
    ):
        out = conv(h, a, b)
        ctx.eq(len(out), 3, "number of components", conversion=name)
        ctx.eq(out[0], h, "the hue changed", conversion=name)
        ctx.expect(all(-EPS <= x <= 1 + EPS for x in out[1:]), "component out of [0, 1]", conversion=name, out=out)
        want = rgb_in((h, a, b))
        got = rgb_out(out)
        ctx.expect(near(want, got, 1e-7), "the converted colour is another one", conversion=name, out=out, rgb=got, expected=want)
        black = max(want) == 0
        white = min(want) == 1
        if black or white or grey:
            ctx.expect(abs(out[1]) <= 1e-9, "a grey has a saturation", conversion=name, out=out)
            ctx.ev("black" if black else "white" if white else "grey")
        back = inv(*out)
        got = rgb_in(back)
        ctx.expect(near(want, got, 1e-7), "converting back gives another colour", conversion=name, back=back)
        if 0.01 < b < 0.99 and a > 0.01:
            ctx.expect(near(back, (h, a, b), 1e-8), "converting back gives other components", conversion=name, back=back)
            ctx.ev("round trip")
        ctx.ev(name)
    if not grey and b != 1:
        ctx.nontrivial(h, a, b)


def grid(ctx):
    h = (ctx.i % 13) * 30 / 360
    a = (ctx.i // 13) * 5 / 100
    for b in range(0, 101, 5):
        judge(ctx, h, a, b / 100)


def rand(ctx):
    r = ctx.rng
    x = lambda: r.choice([0.0, 1.0, 0.5, r.random(), r.random(), r.random(), r.randint(0, 100) / 100, r.randint(0, 100) / 100, 1 / 3, 2 / 3])
    for _ in range(10):
        c = (x(), x(), x())
        judge(ctx, *c)
    ctx.sample(colour=c)


NAMES = ["turquoise", "red", "#40e0d0", "#fff", "transparent", "Black", "grey20", "#12345678", "", "blue3", "lightHSL"]


def html(ctx):
    r = ctx.rng
    h = r.choice([0, 360, 120, 240, r.randint(0, 360), r.randint(0, 360)])
    s, l = r.choice([0, 100, 50, r.randint(0, 100), r.randint(0, 100)]), r.choice([0, 100, 50, r.randint(0, 100), r.randint(0, 100)])
    fmt = r.choice(["hsl(%d, %d%%, %d%%)", "hsl(%d,%d%%,%d%%)", "hsl( %d , %d%% , %d%% )", "hsl(%d, %d, %d)", "hsl(%d,  %d%%,  %d%%)"])
    text = fmt % (h, s, l)
    ctx.note(text=text)
    n = normalize_color_tuple(h, s, l)
    ctx.expect(near(n, (h / 360, s / 100, l / 100), 1e-12), "normalized tuple", out=n)
    out = html_color_to_graphviz(text)
    ctx.note(out=out)
    ctx.expect(isinstance(out, str), "the result is not a string")
    parts = [float(p) for p in out.replace(",", " ").split()]
    ctx.eq(len(parts), 3, "a Graphviz HSV colour has three components")
    ctx.expect(all(-EPS <= p <= 1 + EPS for p in parts), "component out of [0, 1]")
    want, got = rgb_hsl((h / 360, s / 100, l / 100)), colorsys.hsv_to_rgb(*parts)
    ctx.expect(near(want, got, 1e-7), "the Graphviz colour is another one", rgb=got, expected=want)
    ctx.ev("html hsl")
    for name in r.sample(NAMES, 3):
        ctx.eq(html_color_to_graphviz(name), name, "a colour that is not hsl is changed", text=name)
        ctx.ev("html other")
    if s and 0 < l < 100:
        ctx.nontrivial(text)


FAMILIES = [Fam("grid", grid, 13 * 21, 13 * 21), Fam("rand", rand, 16000, 240000), Fam("html", html, 16000, 160000)]
