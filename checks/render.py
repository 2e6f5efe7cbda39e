"""C03 to C15: rendering of documents, judged by spec/Render.tla."""
import copy, json, os, random, re, struct
import vlib, pdfread, fontgen
from vlib import Harness, tlc, write_ndjson
from htmldoc import *

VERA = os.path.join(vlib.REPO, "victor/fonts/vera/Vera.ttf")

CFG = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "%s"
  FontFile = "%s"
  Aspects = {%s}
INVARIANT Conforms
INVARIANT Report
INVARIANT BoxTreeOk
INVARIANT WidthEquation
INVARIANT TextConserved
INVARIANT BlocksOnce
INVARIANT LinesStacked
"""
# units of 1/8 px, for lengths of millions of pixels
LARGE = """CONSTANTS
  PX <- LargePX
  Near <- LargeNear
"""


def font_file(c):
    path = os.path.join(c.work, "font.ndjson")
    if not os.path.exists(path):
        r = fontgen.Reader(open(VERA, "rb").read())
        g = [r.map.get(k, 0) for k in range(max(r.map) + 1)]
        write_ndjson(path, [dict(g=g, adv=[r.adv[x] for x in g], asc=r.ascender, upem=r.upem)])
    return path


def render(c, h, source, mode="html", unit=10240):
    """The display list the real code paints, or an error"""
    try:
        parts = h.call(mode, source)
    except Harness.Died as e:
        return "the code under test did not answer: %s" % e, []
    for tag, payload in parts:
        if tag == "P":
            return "panic: " + payload.decode("utf8", "replace"), []
    if parts[0][0] == "L":
        return parts[0][1].decode("utf8", "replace"), []
    try:
        pdf = pdfread.read(parts[0][1])
        if len(pdf.pages) != 1 or (round(pdf.pages[0].width, 2), round(pdf.pages[0].height, 2)) != (600, 800):
            return "not one page of 600 by 800 px", []
        return "", items_of(pdf, unit)
    except (pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError) as e:
        return "bad PDF: %s %s" % (type(e).__name__, e), []


def show(items, unit=10240):
    return "\n".join("  %-4s x=%.2f y=%.2f w=%.2f h=%.2f color=%06x alpha=%d %s" % (
        i["k"], i["x"] / unit, i["y"] / unit, i["w"] / unit, i["h"] / unit, i["c"], i["a"], i["g"] or "") for i in items)


def run_tlc(c, name, recs, aspects, large=False, workers=8):
    path = os.path.join(c.work, re.sub(r"\W+", "-", name) + ".ndjson")
    write_ndjson(path, recs)
    cfg = CFG % (path, font_file(c), ", ".join('"%s"' % a for a in aspects)) + LARGE * large
    return tlc("Render", cfg, c.work, workers=workers, timeout=880, coverage=False, heap="12g")


def judge_docs(c, name, docs, aspects=("order", "x", "y"), known=None, max_ambiguous=0.2, threads=None, fix=None, large=False):
    """Render each document with the real code; the specification must paint the same.
    known(doc): a variant of the specification that reproduces a known finding, tried on deviation."""
    h = Harness(vlib.build(), threads=threads)
    sources, recs = [], []
    unit = 8 if large else 10240
    for d in docs:
        merge_texts(d.html)
        # one document in six is parsed as XML
        xml = d.xml_source(c.rng) if c.rng.random() < 0.17 else None
        src = d.source(c.rng) if xml is None else xml
        if xml is not None:
            c.cov["xml_documents"] = c.cov.get("xml_documents", 0) + 1
        rec = d.rec()
        rec["error"], rec["items"] = render(c, h, src, "html" if xml is None else "xml", unit)
        sources.append(src)
        recs.append(rec)
    h.close()
    todo = list(range(len(recs)))
    while todo:
        try:
            res = run_tlc(c, name, [recs[i] for i in todo], aspects, large)
        except vlib.ToolError as e:
            # lengths beyond the integers of TLC: this document cannot be judged
            out = open(os.path.join(c.work, "Render.out")).read()
            m = re.search(r"^Error: Overflow when computing.*?^/\\ t = (\d+)$", out, re.M | re.S)
            if not large or not m or len(todo) < 0.9 * len(recs) - 3:
                raise
            del todo[int(m.group(1)) - 1]
            c.cov["too_large"] = c.cov.get("too_large", 0) + 1
            continue
        if res.ok:
            break
        st = vlib.last_state(res.out)
        inv = re.search(r"Invariant (\w+) is violated", res.out)
        if not inv or inv.group(1) != "Conforms":
            raise vlib.ToolError("Render.tla violates its own %s:\n%s\n%s" % (
                inv and inv.group(1), sources[todo[int(st.get("t", 1)) - 1]], res.out[-3000:]))
        i = todo[int(st["t"]) - 1]
        if known and known(docs[i]) and c.is_known(known(docs[i])):
            # does the variant that describes the known finding explain exactly this?
            alt = dict(recs[i], swap=True)
            r2 = run_tlc(c, name + " known finding", [alt], aspects, large)
            if r2.ok:
                c.known(known(docs[i]))
                todo.remove(i)
                # the finding is known: all other documents of that kind are judged by the variant
                for j in list(todo):
                    if known(docs[j]):
                        recs[j] = dict(recs[j], swap=True)
                continue
        detail = "%s: the real code does not paint what the specification does: %s\ndocument:\n%s\npainted:\n%s\nspecified:\n%s" % (
            name, st.get("verdict"), sources[i], show(recs[i]["items"], unit), compact(st.get("list", ""), unit))
        c.violation(detail, dict(document=sources[i], painted=recs[i], verdict=st.get("verdict"), expected=st.get("list")))
    c.add_tlc(res, name)
    amb = sum(1 for p in res.prints if p == "ambiguous")
    c.cov["ambiguous_line_breaks"] = c.cov.get("ambiguous_line_breaks", 0) + amb
    if amb > max_ambiguous * len(recs) + 2:
        raise vlib.ToolError("%s: %d of %d documents have line breaks that are too close" % (name, amb, len(recs)))
    c.cov["traces_validated_against_impl"] += len(todo) - amb
    c.sample("%s:\n%s" % (name, sources[-1]))
    return sources, recs


def compact(text, unit=10240):
    items = re.findall(r"\[([^\[\]]*(?:<<[^\[\]]*>>)?[^\[\]]*)\]", text.replace("\n", " "))
    res = []
    for it in items:
        f = dict((k, v.strip()) for k, v in re.findall(r"(\w+) \|->\s*(\"\w*\"|-?\d+|TRUE|FALSE|<<.*?>>)", it))
        try:
            res.append("  %-4s x=%.2f y=%.2f w=%.2f h=%.2f color=%06x alpha=%s element=%s %s" % (
                f["k"].strip('"'), int(f["x"]) / unit, int(f["y"]) / unit, int(f["w"]) / unit, int(f["h"]) / unit,
                int(f["c"]), f["a"], f["e"], f["g"] if f["g"] != "<<>>" else ""))
        except (KeyError, ValueError):
            return text[:3000]
    return "\n".join(res)


# ------------------------------------------------------------------ generators


def unique_colors(rng, n, base=0):
    """Distinct colours, recognizable after a round trip"""
    cols = set()
    while len(cols) < n:
        cols.add((rng.randrange(1, 256), rng.randrange(0, 256), rng.randrange(1, 256)))
    return [rgb(*x, form=rng.choice([0, 0, 1, 3])) for x in cols]


class Palette:
    def __init__(self, rng):
        self.rng, self.used = rng, set()

    def next(self, alpha=None):
        while True:
            x = (self.rng.randrange(256), self.rng.randrange(256), self.rng.randrange(1, 255))
            if x not in self.used:
                self.used.add(x)
                return rgb(*x, a=alpha, form=self.rng.choice([0, 0, 1, 3]))


WORDS = ["a", "to", "the", "fox", "lazy", "quick", "jumps", "overly", "wonder", "il", "WWW", "x1", "-", "é", "naïve"]


def words(rng, n):
    return " ".join(rng.choice(WORDS) for _ in range(n))


def pick(rng, *choices):
    """choices: values, or (weight, value)"""
    total = [(c if isinstance(c, tuple) else (1, c)) for c in choices]
    x = rng.random() * sum(w for w, _ in total)
    for w, v in total:
        x -= w
        if x < 0:
            return v() if callable(v) else v
    v = total[-1][1]
    return v() if callable(v) else v


def length(rng, lo, hi, em_ok=True, pct_ok=True):
    """A length as a token, about lo to hi px"""
    r = rng.random()
    if r < 0.15:
        return number(0)
    if em_ok and r < 0.25:
        return em(rng.choice([-1, -0.5, 0.5, 1, 1.25, 2]) if lo < 0 else rng.choice([0.25, 0.5, 1, 1.5, 2]))
    if pct_ok and r < 0.4:
        return pct(rng.choice([-5, -2.5, 1, 5, 10]) if lo < 0 else rng.choice([1, 2, 2.5, 5, 10]))
    return px(rng.randint(lo * 4, hi * 4) / 4)


SIDES = ("top", "right", "bottom", "left")


def edges(rng, style, p=0.3, neg=True, vertical=True, horizontal=True, auto=True, small=1):
    for s in SIDES:
        if (s in ("top", "bottom") and not vertical) or (s in ("left", "right") and not horizontal):
            continue
        if rng.random() < p:
            if auto and s in ("left", "right") and rng.random() < 0.3:
                style.append(Decl("margin-" + s, AUTO))
            else:
                style.append(Decl("margin-" + s, length(rng, -20 if neg and rng.random() < 0.3 else 0, 40 // small)))
        if rng.random() < p:
            style.append(Decl("padding-" + s, length(rng, 0, 20 // small)))
        if rng.random() < p / 2:
            style.append(Decl("border-%s-style" % s, ident("solid")))
            if rng.random() < 0.7:
                style.append(Decl("border-%s-width" % s,
                                  rng.choice([px(rng.randint(0, 12) / 2), ident("thin"), ident("thick"), ident("medium"), em(0.25)])))
        elif rng.random() < p / 4:
            style.append(Decl("border-%s-width" % s, px(7)))
    return style


def sep_elements(el):
    """All elements below (and including) el"""
    yield el
    for c in el.ch:
        if isinstance(c, El):
            yield from sep_elements(c)


def count(el):
    return sum(1 for _ in sep_elements(el))


def chunks(xs, n):
    for k in range(0, len(xs), n):
        yield xs[k:k + n]


# ------------------------------------------------------------------ extremes of documents

def declarations(doc):
    res = {}
    for el in sep_elements(doc.html):
        for x in [] if el.raw_style is not None else el.style:
            res[id(x)] = x
        for r in getattr(el, "rules", ()):
            for x in getattr(r, "decls", ()):
                res[id(x)] = x
    return res.values()


def rescaled(rng, d, p, f):
    """px lengths are multiplied by f(), each with probability p"""
    for x in declarations(d):
        if x.raw is None and x.p != "font-size":
            for i, t in enumerate(x.toks):
                if t.t == "dim" and t.s == "px" and rng.random() < p:
                    n = t.n * f()
                    if n == int(n) and t.text == num_text(t.n) + "px":
                        x.toks = x.toks[:i] + (px(int(n) / 1000),) + x.toks[i + 1:]


def enlarged(rng, d):
    """Lengths of thousands or millions of px; no text. None if some might become too large to compare."""
    for el in sep_elements(d.html):
        el.ch = [x for x in el.ch if not isinstance(x, Text)]
    longest, ems, pcts = 16, 1, 1
    for x in declarations(d):
        for t in x.toks:
            if t.t == "dim":
                if t.s == "px":
                    longest = max(longest, abs(t.n) / 1000)
                else:
                    ems = max(ems, abs(t.n) / 1000)
            elif t.t == "pct":
                pcts = max(pcts, abs(t.n) / 100000)

    def depth(el):
        return 1 + max([depth(x) for x in el.ch if isinstance(x, El)], default=0)
    bound = longest * ems ** (depth(d.body) + 2) * pcts ** depth(d.body)
    fs = [f for f in (7, 100, 1000, 4000, 20000) if bound * f < 5e6]
    if not fs:
        return None
    f = fs[-1] if rng.random() < 0.6 else rng.choice(fs)
    big = rng.random() < 0.5
    for x in declarations(d):
        if x.raw is None:
            toks = list(x.toks)
            for i, t in enumerate(toks):
                if t.t == "dim" and t.s == "px" and t.text == num_text(t.n) + "px" and (big or rng.random() < 0.8):
                    toks[i] = px(t.n * f / 1000)
            x.toks = tuple(toks)
    return d


def repeated(rng, d):
    """Something of the document is there many times"""
    els = [el for el in sep_elements(d.body) if el.ch]
    if els:
        el = rng.choice(els)
        i = rng.randrange(len(el.ch))
        if not isinstance(el.ch[i], El) or count(el.ch[i]) < 4:
            k = rng.choice([9, 17, 33, 40, 70]) if not isinstance(el.ch[i], Text) else rng.choice([2, 3])
            el.ch[i + 1:i + 1] = [copy.deepcopy(el.ch[i]) for _ in range(k)]
    return d


def judge_extremes(c, name, docs, n, aspects=("order", "x", "y"), large=True):
    """Documents like those given with very small, very large or very many parts"""
    rng = c.rng
    some = [copy.deepcopy(d) for d in rng.sample(docs, min(n, len(docs))) if not getattr(d, "four", False)]
    third = len(some) // 3
    for d in some[:third]:
        rescaled(rng, d, 0.6, lambda: rng.choice([0.5, 0.25, 0.125, 0.125]))
    for d in some[third:third + third // 3]:
        repeated(rng, d)
    judge_docs(c, name + ", small or many", some[:third + third // 3], aspects)
    if large:
        big = [e for e in (enlarged(rng, d) for d in some[third + third // 3:]) if e]
        if big:
            judge_docs(c, name + ", large", big, aspects, large=True)


# ------------------------------------------------------------------ C11

def block_tree(rng, pal, depth, budget, make):
    """Nested blocks; make(rng) gives the declarations of one"""
    style = make(rng, depth)
    el = El("div", style=style + [Decl("background-color", pal.next())])
    while depth > 0 and budget[0] > 0 and rng.random() < 0.65:
        budget[0] -= 1
        el.ch.append(block_tree(rng, pal, depth - 1, budget, make))
    return el


def body_of(rng, *ch, plain=0.5):
    style = []
    if rng.random() > plain:
        style = [Decl("margin", px(rng.choice([0, 3, 8, 20])))]
        if rng.random() < 0.4:
            style.append(Decl("padding", px(rng.choice([1, 4, 10]))))
    return El("body", *ch, style=style)


def width_decls(rng, depth):
    s = []
    if rng.random() < 0.6:
        s.append(Decl("width", pick(rng, lambda: px(rng.choice([0, 50, 200.5, 400, 584, 600, 700])),
                                    lambda: pct(rng.choice([0, 10, 33.3, 50, 100, 120])),
                                    lambda: em(rng.choice([1, 10, 30])), AUTO)))
    edges(rng, s, 0.35)
    if rng.random() < 0.3:
        s.append(Decl("font-size", rng.choice([px(10), px(32), em(1.5), em(0.5)])))
    if rng.random() < 0.6:
        s.append(Decl("height", px(rng.choice([5, 12, 30]))))
    if rng.random() < 0.15:
        s.append(Decl("display", ident("flow-root")))
    rng.shuffle(s)
    return s


def C11(c):
    rng = c.rng
    docs = []
    # every combination of width and margins, under every containing block
    blocks = []
    W = [AUTO, px(0), px(200), pct(50), px(700), pct(100)]
    M = [AUTO, number(0), px(30), px(-30), pct(10)]
    P = [None, ("padding", px(20)), ("border", px(5)), ("both", pct(5))]
    for w in W:
        for ml in M:
            for mr in M:
                for p in P:
                    s = [Decl("width", w), Decl("margin-left", ml), Decl("margin-right", mr), Decl("height", px(4))]
                    if p and p[0] in ("padding", "both"):
                        s += [Decl("padding-left", p[1]), Decl("padding-right", px(3))]
                    if p and p[0] in ("border", "both"):
                        s += [Decl("border-left-style", ident("solid")), Decl("border-left-width", px(5)),
                              Decl("border-right-style", rng.choice([ident("solid"), ident("none")])),
                              Decl("border-right-width", px(2))]
                    blocks.append(s)
    rng.shuffle(blocks)
    for group in chunks(blocks, 12):
        pal = Palette(rng)
        outer = [Decl("width", rng.choice([AUTO, px(200), px(300), px(584), px(731.5)]))]
        docs.append(Doc(El("body", El("div", *[El("div", style=s + [Decl("background", pal.next())]) for s in group],
                                      style=outer))))
    for _ in range(c.n(500, 12000)):
        pal = Palette(rng)
        docs.append(Doc(body_of(rng, *[block_tree(rng, pal, 4, [rng.randint(1, 7)], width_decls)
                                       for _ in range(rng.randint(1, 3))])))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "widths", docs, ("x", "y"))
    judge_extremes(c, "widths", docs, c.n(400, 4000), ("x", "y"))


# ------------------------------------------------------------------ C12

def margin_decls(rng, depth):
    s = []
    for side in ("top", "bottom"):
        if rng.random() < 0.75:
            s.append(Decl("margin-" + side, pick(rng, lambda: px(rng.choice([5, 10, 20, 30])), lambda: px(rng.choice([-5, -10, -25])),
                                                 (0.3, lambda: em(rng.choice([1, -0.5]))), (0.2, lambda: pct(rng.choice([2, -1]))),
                                                 (0.1, AUTO))))
        if rng.random() < 0.12:
            s.append(Decl("padding-" + side, px(rng.choice([0, 1, 7]))))
        if rng.random() < 0.08:
            s.append(Decl("border-%s-style" % side, ident("solid")))
            if rng.random() < 0.8:
                s.append(Decl("border-%s-width" % side, px(rng.choice([0, 2]))))
    if rng.random() < 0.25:
        s.append(Decl("height", pick(rng, lambda: px(rng.choice([10, 25, 60])), (0.5, lambda: pct(rng.choice([10, 50, 100]))), (0.2, AUTO))))
    if rng.random() < 0.1:
        s.append(Decl("display", ident("flow-root")))
    return s


def sprinkle_text(rng, el, p):
    for e in list(sep_elements(el)):
        if not e.ch:
            if rng.random() < p:
                e.ch.append(Text(rng.choice(["x", "some words", " ", "\n"])))
        elif rng.random() < p / 2:
            e.ch.insert(rng.randrange(len(e.ch) + 1), Text(rng.choice(["x", " ", "anon block"])))
    return el


def small_block_forests(rng, n):
    """Every document of two blocks, siblings or nested, of a few kinds, in random order"""
    kinds = [[], [("padding-top", px(4))], [("padding-bottom", px(4))], [("height", px(15))], [("display", ident("flow-root"))], "text"]
    nodes = [(mt, mb, k) for mt in (-20, 0, 10, 30) for mb in (-12, 0, 10, 40) for k in range(len(kinds))]
    pairs = [(a, b, shape) for a in nodes for b in nodes for shape in range(2)]
    rng.shuffle(pairs)
    for a, b, shape in pairs[:n]:
        pal = Palette(rng)

        def make(x):
            mt, mb, k = x
            s = [Decl("margin-top", px(mt)), Decl("margin-bottom", px(mb)), Decl("background", pal.next())]
            if kinds[k] != "text":
                s += [Decl(p, v) for p, v in kinds[k]]
            return El("div", *([Text("x")] if kinds[k] == "text" else []), style=s)
        first, second = make(a), make(b)
        end = El("div", style=[Decl("height", px(1)), Decl("background", pal.next())])
        wrap = [Decl("background", pal.next())]
        if shape == 0:
            ch = [first, second]
        else:
            first.ch.append(second)
            ch = [first]
        yield Doc(El("body", El("div", *ch, style=wrap), end))


def C12(c):
    rng = c.rng
    docs = list(small_block_forests(rng, c.n(1200, 18432)))
    for _ in range(c.n(900, 15000)):
        pal = Palette(rng)
        tops = [block_tree(rng, pal, 4, [rng.randint(1, 6)], margin_decls) for _ in range(rng.randint(1, 4))]
        body = body_of(rng, *tops)
        if rng.random() < 0.4:
            sprinkle_text(rng, body, 0.3)
        if rng.random() < 0.2:
            body.style.append(Decl("height", rng.choice([px(100), pct(50), pct(100)])))
        html_style = [Decl("background", pal.next())]
        if rng.random() < 0.3:
            html_style.append(Decl("height", rng.choice([px(300), pct(50)])))
        if rng.random() < 0.2:
            html_style += margin_decls(rng, 0)
        d = Doc(body, html_style=html_style)
        docs.append(d)
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "margins and heights", docs, ("y",))
    judge_extremes(c, "margins and heights", docs, c.n(600, 6000), ("y",))


# ------------------------------------------------------------------ C03

NAMES = ["a", "b", "A", "foo", "x-y", "é", "1a"]
VALUES = ["", "a", "A", "a b", "ab", "AB", "en-us", "en", "é", "a-b", " a", "b\ta", "foo", "foo bar baz", "ba", "-", "a\nb", 'q"', "\\"]
ODD_IDS = [" a", "a ", "a b", "\ta", "a\n", " ", "B", "FOO", "Foo", "a\u00a0", "\u00a0a", "É", "a\fb", ".a", "#a", "a,b"]
ATTRS = ["title", "data-x", "data-y", "xyz"]
HTML_TAGS = ["div", "span", "section", "b", "em", "article", "i", "x-tag"]
SVG_TAGS = ["g", "linearGradient", "a", "rect", "foo"]

# each rule of a document switches one of these on: all of them can be told apart on a box of fixed size
BITS = [("padding-left", 1), ("padding-right", 2), ("border-left-width", 4), ("border-right-width", 8), ("padding-top", 1),
        ("padding-bottom", 2), ("border-top-width", 4), ("border-bottom-width", 8)]


def random_features(rng, tree, pal, depth, html=True):
    """An element with random name, id, classes and attributes, and children"""
    tag = rng.choice(HTML_TAGS if html else SVG_TAGS)
    el = El(tag, html=html)
    if rng.random() < 0.5:
        el.cls = [rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.2:
            # what separates classes: any number of any white space of HTML, and no other
            odd = rng.choice(["a\u00a0b", "\u00a0", "a\u2003b", "a\u000bb", "a,b", "\u0085"])
            el.cls += [odd] * (rng.random() < 0.4)
            ws = lambda n: "".join(rng.choice(" \t\n\f") for _ in range(rng.randint(n, 2)))
            el.cls_raw = ws(0) + "".join(x + (ws(1) if i + 1 < len(el.cls) else ws(0)) for i, x in enumerate(el.cls))
    elif rng.random() < 0.05:
        el.cls_raw = rng.choice(["", " ", "\n\t"])
    if rng.random() < 0.4:
        # an id is the attribute's whole value
        el.id = rng.choice(NAMES) if rng.random() < 0.7 else rng.choice(ODD_IDS)
    elif rng.random() < 0.05:
        el.attrs["id"] = ""
    for name in ATTRS:
        if rng.random() < 0.3:
            el.attrs[name] = rng.choice(VALUES)
    if not html and rng.random() < 0.3:
        el.attrs["viewBox"] = rng.choice(VALUES)
    if not html and rng.random() < 0.5:
        el.attrs[rng.choice(["xlink:title", "xlink:href", "xml:lang"])] = rng.choice(VALUES)
    if not html and rng.random() < 0.4:
        # two attributes that only their namespaces tell apart
        for name in rng.sample(["xlink:title", "title"], 2):
            el.attrs.pop(name, None)
            el.attrs[name] = rng.choice(VALUES)
    el.style = [Decl("background-color", pal.next()), Decl("width", px(100)), Decl("height", px(20)), Decl("border-style", ident("solid"))]
    if depth > 0 and rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if tree[0] > 0:
                tree[0] -= 1
                if html and rng.random() < 0.15:
                    svg = random_features(rng, tree, pal, depth - 1, False)
                    svg.tag = "svg"
                    el.ch.append(svg)
                else:
                    el.ch.append(random_features(rng, tree, pal, depth - 1, html))
    # what must not matter
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 2])):
            el.ch.insert(rng.randrange(len(el.ch) + 1), rng.choice([Comment("c"), Comment(""), Text(" "), Text("x"), Text("\n")]))
    if rng.random() < 0.1 and html:
        el.ch.insert(rng.randrange(len(el.ch) + 1), Comment("?php echo 1 ?"))
    return el


def elements_with_path(el, parent=None, path=()):
    """(element, ancestors nearest first, preceding element siblings nearest first)"""
    out = []

    def walk(e, anc, prev):
        out.append((e, anc, prev))
        before = []
        for c in e.ch:
            if isinstance(c, El):
                walk(c, [e] + anc, before[::-1])
                before.append(c)
    walk(el, [], [])
    return out


def random_case(rng, s):
    return "".join(c.upper() if c.isascii() and rng.random() < 0.4 else c for c in s)


def nth_of(rng, kind=None):
    a, b = rng.randint(-3, 4), rng.randint(-4, 5)
    kind = kind or rng.choice(["nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"])
    r = rng.random()
    if r < 0.1:
        return nth(kind, 2, 1, "odd")
    if r < 0.2:
        return nth(kind, 2, 0, "even")
    if r < 0.3:
        return nth(kind, 0, b, "%d" % b)
    if r < 0.4 and a != 0:
        return nth(kind, a, 0, "%dn" % a)
    if r < 0.5:
        return nth(kind, a, b, " %dN %s %d " % (a, "+-"[b < 0], abs(b)))
    return nth(kind, a, b)


STRUCTURAL = ["root", "empty", "first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type"]


def simple_for(rng, e, truth=0.75):
    """A simple selector, usually one that the element is likely to match"""
    k = rng.choice(["class", "class", "id", "attr", "attr", "attr", "struct", "nth", "not"])
    real = rng.random() < truth
    if k == "class":
        if real and e.cls:
            x = rng.choice(e.cls)
            return class_(rng.choice([x, x, x, x, x, (x.split() or [x])[0], x.swapcase(), x + " ", " ".join(e.cls)]))
        return class_(rng.choice(NAMES))
    if k == "id":
        if real and e.id:
            # the id, or nearly
            return id_(rng.choice([e.id, e.id, e.id, e.id.strip() or "a", (e.id.split() or ["a"])[0], e.id.swapcase(), e.id + " "]))
        return id_(rng.choice(NAMES + ODD_IDS))
    if k == "attr":
        attrs = dict(e.attrs)
        if e.id:
            attrs["id"] = e.id
        if e.cls or e.cls_raw is not None:
            attrs["class"] = e.class_text()
        name = rng.choice(sorted(attrs)) if real and attrs else rng.choice(ATTRS + ["id", "class", "viewBox", "style"][:3])
        op = rng.choice(["has", "=", "~=", "|=", "^=", "$=", "*="])
        v = attrs.get(name, "a")
        name = name.split(":")[-1]
        if not real:
            v = rng.choice(VALUES)
        elif op == "~=" and v.split():
            v = rng.choice(v.split())
        elif op == "|=":
            v = rng.choice([v, v.split("-")[0]])
        elif op in ("^=", "$=", "*=") and v:
            i, j = sorted((rng.randrange(len(v) + 1), rng.randrange(len(v) + 1)))
            v = v[:j] if op == "^=" else v[i:] if op == "$=" else v[i:j]
        ci = op != "has" and rng.random() < 0.3
        if ci and rng.random() < 0.6:
            v = v.swapcase() if v.isascii() else v
        if rng.random() < 0.3:
            name = random_case(rng, name)
        quote = rng.choice(['"', "'"])
        if v and op != "has" and rng.random() < 0.2 and not any(x.isspace() for x in v):
            quote = ""
        return attr(name, op, v, ci, quote, rng.choice(["", "", "", "*|", "|"]))
    if k == "struct":
        s = pseudo(rng.choice(STRUCTURAL))
        s.text = random_case(rng, s.text) if rng.random() < 0.2 else s.text
        return s
    if k == "nth":
        return nth_of(rng)
    while True:
        x = rng.choice([lambda: type_(rng.choice(HTML_TAGS)), any_, lambda: simple_for(rng, e, 0.4)])()
        if x.k != "not":
            return not_(x)


def compound_for(rng, e, truth=0.8):
    out = []
    r = rng.random()
    if r < 0.5:
        t = e.tag if rng.random() < truth else rng.choice(HTML_TAGS + SVG_TAGS)
        if rng.random() < 0.25:
            t = random_case(rng, t)
        out.append(type_(t, rng.choice(["", "", "", "*|", "|"])) if rng.random() < 0.9 else type_(t))
    elif r < 0.6:
        out.append(any_(rng.choice(["", "*|"])))
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2]) if out else rng.choice([1, 1, 2])):
        out.append(simple_for(rng, e, truth))
    return out


def selector_for(rng, elements):
    """A complex selector built around a real element and its relatives"""
    e, anc, prev = rng.choice(elements)
    parts = [compound_for(rng, e)]
    combs = []
    index = {id(x[0]): x for x in elements}
    while rng.random() < 0.55 and len(parts) < 5:
        comb = rng.choice([" ", ">", "+", "~"])
        if comb in "+~" and not prev and rng.random() < 0.8:
            comb = rng.choice([" ", ">"])
        if comb in " >":
            nxt = (anc[0] if comb == ">" else rng.choice(anc)) if anc else e
        else:
            nxt = (prev[0] if comb == "+" else rng.choice(prev)) if prev else e
        combs.append(comb)
        parts.append(compound_for(rng, nxt))
        if id(nxt) in index:
            e, anc, prev = index[id(nxt)]
    parts.reverse()
    combs.reverse()
    return Sel(*[(combs[i - 1] if i else "", p) for i, p in enumerate(parts)])


def all_blocks(decls=()):
    return Rule([Sel(("", [type_("body")]), (" ", [any_()]))], [Decl("display", ident("block"))] + list(decls))


def box_style(pal):
    return [Decl("background-color", pal.next()), Decl("width", px(100)), Decl("height", px(20)), Decl("border-style", ident("solid"))]


def twins(rng, el):
    """Some elements become a copy of one before them: nothing but their place tells the two apart"""
    el.style = []
    for i, x in enumerate(el.ch):
        if isinstance(x, El):
            before = [y for y in el.ch[:i] if isinstance(y, El)]
            if before and rng.random() < 0.6:
                el.ch[i] = copy.deepcopy(before[-1] if rng.random() < 0.8 else rng.choice(before))
            else:
                twins(rng, x)


def bit_rules(rng, selector_lists):
    bits = list(BITS)
    rng.shuffle(bits)
    return [Rule(sels, [Decl(p, px(v))]) for sels, (p, v) in zip(selector_lists, bits)]


def C03(c):
    rng = c.rng
    docs = []

    def lists(sels):
        """Several selectors, eight rules to a document"""
        return chunks(sels, 8)

    # An+B: everything small, against up to six siblings of two types
    nths = [nth(k, a, b) for k in ("nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type")
            for a in range(-3, 4) for b in range(-4, 7)]
    rng.shuffle(nths)
    for group in lists(nths):
        pal = Palette(rng)
        equal = rng.random() < 0.5
        mk = lambda tag: El(tag, style=[] if equal else box_style(pal))
        body = El("body", *[x for i in range(rng.randint(1, 7))
                            for x in ([Comment("x"), Text(" ")] if rng.random() < 0.4 else []) + [mk(rng.choice(["div", "p"]))]])
        docs.append(Doc(body, [[all_blocks(box_style(pal) if equal else [])] + bit_rules(rng, [[Sel(("", [x]))] for x in group])]))
    # every attribute operator with every pair of values
    pairs = [(op, v, w, ci) for op in ("=", "~=", "|=", "^=", "$=", "*=") for v in VALUES for w in VALUES for ci in (False, True)]
    rng.shuffle(pairs)
    for group in list(lists(pairs))[:c.n(140, 10000)]:
        pal = Palette(rng)
        vals = [v for _, v, _, _ in group]
        body = El("body", *[El("div", attrs={"data-x": v}, style=[Decl("background-color", pal.next()), Decl("width", px(100)),
                                                                   Decl("height", px(20)), Decl("border-style", ident("solid"))])
                            for v in vals])
        docs.append(Doc(body, [[all_blocks()] + bit_rules(rng, [[Sel(("", [attr("data-x", op, w, ci)]))] for op, _, w, ci in group])]))
    # random trees and selectors
    for _ in range(c.n(700, 9000)):
        pal = Palette(rng)
        body = El("body")
        budget = [rng.choice([4, 8, 14])]
        while budget[0] > 0 and len(body.ch) < 6:
            budget[0] -= 1
            body.ch.append(random_features(rng, budget, pal, rng.choice([1, 3, 5])))
        equal = rng.random() < 0.35
        if equal:
            twins(rng, body)
        d = Doc(body, before=rng.choice(["", "", "<!--x-->", "<!----><?x?>"]))
        els = [x for x in elements_with_path(d.html) if x[0] is not d.head and d.head not in x[1]]
        rules = bit_rules(rng, [[selector_for(rng, els) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(8)])
        d2 = Doc(body, [[all_blocks(box_style(pal) if equal else [])] + rules], before=d.before)
        docs.append(d2)
    judge_docs(c, "selectors", docs, ("x", "y"))
    judge_extremes(c, "selectors", docs, c.n(200, 2000), ("x", "y"), large=False)


# ------------------------------------------------------------------ C04

class Values:
    """Values of properties that are all different"""

    def __init__(self, rng, pal):
        self.rng, self.pal, self.k = rng, pal, 0

    def __call__(self, p):
        self.k += 1
        if p in ("background-color", "color"):
            return self.pal.next()
        if p.endswith("-style"):
            return ident(self.rng.choice(["solid", "none"]))
        if p == "display":
            return ident(self.rng.choice(["block", "block", "inline", "none", "contents", "flow-root"]))
        if p == "font-size":
            return px(8 + self.k % 40)
        return px(1 + self.k % 97)


C04_PROPS = ["background-color", "padding-left", "padding-top", "margin-left", "border-left-width", "width", "height",
             "color", "border-left-style", "font-size", "margin-top"]


def cascade_tree(rng, pal, depth, budget):
    el = El(rng.choice(["div", "div", "section", "b", "p-x"]))
    if rng.random() < 0.7:
        el.cls = rng.sample(["a", "b", "c", "d"], rng.choice([1, 2, 3]))
    if rng.random() < 0.5:
        el.id = rng.choice(["i", "j"])
    if rng.random() < 0.3:
        el.attrs["title"] = rng.choice(["a", "b"])
    if rng.random() < 0.5:
        el.ch.append(Text("x"))
    while depth > 0 and budget[0] > 0 and rng.random() < 0.6:
        budget[0] -= 1
        el.ch.append(cascade_tree(rng, pal, depth - 1, budget))
    return el


def origin_docs(rng):
    """User-agent rules against author rules, for every tag the user-agent style sheet knows (that a parser keeps in place)"""
    tags = ["address", "blockquote", "center", "dialog", "figure", "figcaption", "footer", "form", "header", "hr", "legend",
            "listing", "main", "pre", "p", "div", "section", "datalist", "embed", "input", "span"]
    for tag in tags:
        for hidden in ("", "hidden", "type"):
            if hidden == "type" and tag != "input":
                continue
            for imp in (False, True):
                for display in (None, "block", "inline", "none"):
                    pal = Palette(rng)
                    attrs = {"hidden": ""} if hidden == "hidden" else {"type": rng.choice(["hidden", "HIDDEN", "Hidden"])} if hidden else {}
                    decls = [Decl("background", pal.next()), Decl("padding-left", px(3))]
                    if display:
                        decls.append(Decl("display", ident(display), imp=imp))
                    where = rng.random() < 0.5
                    el = El(tag, attrs=attrs, style=[] if where else decls)
                    if tag not in VOID:
                        el.ch.append(Text("x"))
                    sel = [type_(tag)] if rng.random() < 0.5 else [any_()]
                    body = El("body", El("div", Text("a"), style=[Decl("background", pal.next())]), el, El("span", Text("b")))
                    rules = [Rule([Sel(("", [type_("body")]), (">", sel))], decls)] if where else []
                    yield Doc(body, [rules])


def C04(c):
    rng = c.rng
    docs = list(origin_docs(rng))
    # nothing but the order of two declarations: origin, importance, specificity, place
    sels = [[any_()], [type_("div")], [class_("a")], [class_("a"), class_("b")], [id_("i")], [not_(any_()), ], [type_("div"), class_("a")],
            [not_(class_("z"))], [not_(id_("z"))], [attr("title")], [pseudo("first-child")], [nth("nth-child", 0, 1)],
            [class_("a")] * 2, [class_("a")] * 12, [type_("div"), id_("i")], [any_(), attr("title", "^=", "t")]]
    cases = [(a, b, i, j, s) for a in sels for b in sels for i in (False, True) for j in (False, True) for s in range(3)]
    rng.shuffle(cases)
    for a, b, i, j, s in cases[:c.n(500, 3072)]:
        pal = Palette(rng)
        v = Values(rng, pal)
        el = El("div", El("b", Text("x")), cls=["a", "b"], id="i", attrs={"title": "t"})
        ps = rng.sample(C04_PROPS, 3)
        d1 = [Decl(p, v(p), imp=i) for p in ps]
        d2 = [Decl(p, v(p), imp=j) for p in reversed(ps)]
        base = Rule([Sel(("", [any_()]))], [Decl("background-color", pal.next()), Decl("border-style", ident("solid"))])
        r1, r2 = Rule([Sel(("", a))], d1), Rule([Sel(("", b))], d2)
        if s == 0:
            docs.append(Doc(El("body", el), [[base, r1, r2]]))
        elif s == 1:
            docs.append(Doc(El("body", el), [[base, r1], [r2]]))
        else:
            el.style = d2
            docs.append(Doc(El("body", el), [[base, r1]]))
    # specificity: many simple selectors of each kind, one more or less of one kind
    def counted(i, k, t):
        simple = [id_("i")] * i + [rng.choice([class_("a"), attr("title"), not_(class_("z"))]) for _ in range(k)] + \
            [not_(type_("span"))] * t
        rng.shuffle(simple)
        return [Sel(("", simple or [any_()]))]

    counts = [0, 0, 0, 1, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]
    for _ in range(c.n(150, 2500)):
        pal = Palette(rng)
        a = [rng.choice(counts) for _ in range(3)] if rng.random() < 0.5 else [min(rng.choice(counts), 20) for _ in range(3)]
        b = list(a)
        j = rng.randrange(3)
        b[j] += 1
        if j < 2:
            # any number of the lesser kinds
            b[j + 1] = rng.choice([0, b[j + 1], rng.choice(counts)])
            if rng.random() < 0.5:
                a[j + 1] = rng.choice([k for k in counts if k > 2])
        rules = [Rule(counted(*x), [Decl(p, px(n)) for p in ("padding-left", "padding-top")]) for n, x in ((1, a), (2, b), (3, a))]
        rng.shuffle(rules)
        el = El("div", cls=["a"], id="i", attrs={"title": "t"}, style=[Decl("background-color", pal.next()), Decl("height", px(20))])
        docs.append(Doc(El("body", el), [rules]))
    for k in range(c.n(600, 9000)):
        pal = Palette(rng)
        v = Values(rng, pal)
        budget = [rng.choice([1, 3, 5])]
        body = El("body", *[cascade_tree(rng, pal, 3, budget) for _ in range(rng.choice([1, 2]))])
        d0 = Doc(body)
        els = [x for x in elements_with_path(d0.html) if x[0] is not d0.head]
        ps = rng.sample(C04_PROPS, rng.choice([2, 3, 5]))
        if rng.random() < 0.15:
            ps.append("display")
        big = rng.random()
        n = rng.choice([17, 33, 40, 66, 129]) if big < 0.1 else rng.randint(2, 12)
        rules = []
        # many rules that all apply to the same element, or to those around it
        every = big < 0.07
        for _ in range(n):
            sels = [Sel(("", [rng.choice([any_(), any_(), type_("div"), not_(class_("z")), not_(id_("z"))])]))] if every else [selector_for(rng, els) for _ in range(rng.choice([1, 1, 1, 2]))] if rng.random() < 0.6 else \
                [Sel(("", [rng.choice([any_(), type_("div"), class_("a"), id_("i"), class_("b"), attr("title")])]))]
            m = rng.choice([63, 64, 65, 130]) if rng.random() < 0.03 else rng.randint(1, 4)
            p_imp = rng.choice([0, 0.2, 0.5])
            ds = []
            for _ in range(m):
                p = rng.choice(ps)
                ds.append(Decl(p, v(p), imp=rng.random() < p_imp))
            rules.append(Rule(sels, ds))
        for e, _, _ in els:
            if rng.random() < 0.4 and e.tag != "html":
                e.style = [Decl(p, v(p), imp=rng.random() < 0.2) for p in rng.sample(ps, rng.randint(1, len(ps)))]
        base = Rule([Sel(("", [any_()]))], [Decl("background-color", pal.next()), Decl("border-style", ident("solid")),
                                            Decl("display", ident("block"))])
        rules = [base] + rules
        # over one or several style elements, some of them in the body, some no style sheets
        sheets = []
        while rules:
            n = rng.choice([len(rules), rng.randint(0, len(rules))])
            sheets.append(Sheet(*rules[:n], attrs=rng.choice([{}, {}, {"type": ""}, {"type": "text/css"}, {"type": "TEXT/css"}])))
            rules = rules[n:]
        if rng.random() < 0.2:
            sheets.insert(rng.randrange(len(sheets) + 1),
                          Sheet(Rule([Sel(("", [any_()]))], [Decl("padding-left", px(77), imp=True)]), active=False,
                                attrs={"type": rng.choice(["text/plain", "text/css;", "css", " text/css"])}))
        cut = rng.randint(1, len(sheets)) if rng.random() < 0.3 else len(sheets)
        for s in sheets[cut:]:
            e = rng.choice(els)[0]
            while e.tag == "html":
                e = rng.choice(els)[0]
            e.ch.insert(rng.randrange(len(e.ch) + 1), s)
        d = Doc(body, sheets[:cut])
        for e in [d.head] + sheets:
            e.style = [Decl("display", ident("none"), imp=True)]
        docs.append(d)
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "cascade", docs)


# ------------------------------------------------------------------ C05

WIDE = ["inherit", "initial", "unset"]
EM = [-1, -0.25, 0, 0.5, 1, 1.25, 1.5, 2, 3.125]
LENGTHS = ["width", "height", "margin-top", "margin-right", "margin-bottom", "margin-left", "padding-top", "padding-right",
           "padding-bottom", "padding-left", "border-top-width", "border-right-width", "border-bottom-width", "border-left-width",
           "left", "right", "top", "bottom", "font-size"]


def positive(p):
    return p in ("width", "height", "font-size") or p.startswith("padding") or p.startswith("border")


def c05_value(rng, p, pal):
    """A value that depends on other values, usually"""
    if rng.random() < 0.3:
        return ident(random_case(rng, rng.choice(WIDE)) if rng.random() < 0.2 else rng.choice(WIDE))
    if p in ("color", "background-color"):
        return pick(rng, (2, pal.next), lambda: ident(rng.choice(["currentcolor", "currentColor", "CURRENTCOLOR"])), (0.3, TRANSPARENT),
                    lambda: pal.next(rng.choice([0.2, 0.5, 0.8])))
    if p.endswith("-style"):
        return ident(rng.choice(["solid", "solid", "none"]))
    if p == "display":
        return ident(rng.choice(["block", "block", "inline", "flow-root", "contents"]))
    if p == "position":
        return ident(rng.choice(["static", "relative", "relative"]))
    if p in LENGTHS:
        r = rng.random()
        if r < 0.55:
            return em(rng.choice([x for x in EM if x >= 0 or not positive(p)]))
        if r < 0.65 and p != "font-size" and p not in ("top", "bottom", "height"):
            return pct(rng.choice([5, 10, 50]))
        if r < 0.75 and (p in ("width", "height", "left", "right", "top", "bottom") or p.startswith("margin")):
            return AUTO
        if r < 0.8:
            return number(0)
        if p.startswith("border") and r < 0.9:
            return ident(rng.choice(["thin", "medium", "thick"]))
        return px(rng.choice([1, 4, 10, 20.5, 33]))
    raise KeyError(p)


C05_PROPS = LENGTHS + ["color", "background-color", "border-top-style", "border-left-style", "border-right-style",
                       "border-bottom-style", "display", "position"]


def c05_element(rng, pal, depth, budget):
    style = []
    if rng.random() < 0.6:
        style.append(Decl("font-size", c05_value(rng, "font-size", pal)))
    if rng.random() < 0.6:
        style.append(Decl("color", c05_value(rng, "color", pal)))
    if rng.random() < 0.85:
        style.append(Decl("background-color", c05_value(rng, "background-color", pal)))
    for p in rng.sample(C05_PROPS, rng.choice([1, 2, 3, 5])):
        style.append(Decl(p, c05_value(rng, p, pal), imp=rng.random() < 0.1))
    if rng.random() < 0.15:
        style.append(Decl(rng.choice(["margin", "padding", "border-width", "border-style", "background", "border-top"]),
                          ident(rng.choice(WIDE)), imp=rng.random() < 0.2))
    rng.shuffle(style)
    el = El(rng.choice(["div", "div", "div", "span"]), style=style)
    if rng.random() < 0.5:
        el.ch.append(Text(rng.choice(["x", "ab cd"])))
    while depth > 0 and budget[0] > 0 and rng.random() < 0.75:
        budget[0] -= 1
        el.ch.append(c05_element(rng, pal, depth - 1, budget))
        if rng.random() < 0.2:
            el.ch.append(Text("y"))
    return el


def inheritance_chains(rng):
    """Each property, with each keyword, below a parent with each kind of value (given directly or by a rule)"""
    for p in C05_PROPS:
        values = {"font-size": [px(20), em(2)], "color": [rgb(200, 10, 20)], "background-color": [rgb(1, 200, 3), ident("currentcolor")],
                  "display": [ident("inline"), ident("flow-root")], "position": [ident("relative")]}.get(p)
        if values is None and p.endswith("-style"):
            values = [ident("solid")]
        if values is None:
            values = [px(7), em(1.5)]
            if not p.endswith("-width"):
                values += [AUTO] if not p.startswith("padding") else []
                values += [pct(10)] if p not in ("top", "bottom", "height") else []
        for pv in values:
            for kw in WIDE + [None]:
                pal = Palette(rng)
                bg = lambda: [] if p == "background-color" else [Decl("background-color", pal.next())]
                base = [Decl("font-size", px(10))] if rng.random() < 0.5 else []
                rel = [Decl("position", ident("relative"))] if p in ("left", "right", "top", "bottom") else []
                solid = [Decl("border-style", ident("solid"))] if p.endswith("-width") else []
                wide = [Decl("border-%s-width" % p.split("-")[1], px(9))] if p.startswith("border") and p.endswith("-style") else []
                size = [] if p in ("width", "height") else [Decl("width", px(100))] if rng.random() < 0.5 else []
                child = El("div", Text("x"), style=bg() + rel + solid + wide + size + [Decl("font-size", px(30))] * (p != "font-size"))
                if kw:
                    ds = [Decl(p, px(3)) if p in LENGTHS else Decl(p, ident("none"))] if rng.random() < 0.5 else []
                    child.style += ds + [Decl(p, ident(kw))]
                parent = El("div", child, Text("z"), style=base + bg() + rel + solid + wide + [Decl(p, pv)])
                grand = El("div", parent, style=[Decl("font-size", px(rng.choice([12, 16, 25]))), Decl("color", pal.next()),
                                                 Decl("width", px(300))])
                yield Doc(El("body", grand), [[Rule([Sel(("", [type_("div")]))], [Decl("position", ident("static"))])]])


def huge_ems(rng):
    """em lengths of up to millions of px"""
    pal = Palette(rng)

    def box(depth, fs):
        style = [Decl("background-color", pal.next())]
        if depth and rng.random() < 0.7:
            if rng.random() < 0.5:
                fs = rng.choice([1, 2.5, 16, 100, 1000, 50000])
                style.append(Decl("font-size", px(fs)))
            else:
                k = rng.choice([0.5, 3, 50])
                if fs * k < 1e5:
                    fs *= k
                    style.append(Decl("font-size", em(k)))
        for p in rng.sample(["width", "height", "padding-left", "padding-top", "margin-left", "margin-top", "border-left-width"], 3):
            style.append(Decl(p, em(min(max(int(rng.choice([3e3, 1e5, 2.2e6, 3e6, 4.5e6]) / fs), 1), 2000000))))
        style.append(Decl("border-left-style", ident("solid")))
        rng.shuffle(style)
        return El("div", *[box(depth - 1, fs) for _ in range(rng.choice([1, 2]))] if depth else [], style=style)
    return Doc(El("body", box(2, 16)))


def C05(c):
    rng = c.rng
    docs = list(inheritance_chains(rng))
    for _ in range(c.n(1100, 14000)):
        pal = Palette(rng)
        budget = [rng.choice([2, 4, 7])]
        body = El("body", *[c05_element(rng, pal, 4, budget) for _ in range(rng.choice([1, 1, 2]))])
        if rng.random() < 0.5:
            body.style = [Decl("font-size", c05_value(rng, "font-size", pal)), Decl("color", c05_value(rng, "color", pal))]
        html_style = []
        if rng.random() < 0.5:
            html_style = [Decl(p, c05_value(rng, p, pal)) for p in rng.sample(["font-size", "color", "background-color", "padding-left"], 2)]
        docs.append(Doc(body, html_style=html_style))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "computed values", docs)
    judge_docs(c, "large em lengths", [huge_ems(rng) for _ in range(c.n(60, 1500))], large=True)
    judge_extremes(c, "computed values", docs, c.n(400, 4000))


# ------------------------------------------------------------------ C06

BAD_TOKENS = [other(x) for x in (
    "foo", '"red"', "'1px'", "url(x)", "url(\"a b\")", "calc(1px)", "1foo", "3", "-2.5", "#12", "#ggg", "#", "rgb(1,2)",
    "rgb()", "rgb(a,b,c)", "rgba(1,2,3,4,5)", "foo(1px)", ",", "/", "1px,", "solid,", "red/blue", "[auto]", "(1px)", "{}", "{1px}",
    "!ie", "! important x", "!imp", "+", "-", "*", "@x", "<!--", "1 px", "1px2px", "$1px", "0foo", "--x", "_auto", "autox", "au to",
    "#f00f0", "\\\\", "infinity", "NaNpx", "1ex", "1dpi", "0%%", "()", "%", "thin medium x", "url(a b)")]
GOOD_TOKENS = ([ident(x) for x in ("auto", "none", "solid", "block", "inline", "static", "relative", "thin", "medium", "thick",
                                   "currentcolor", "inherit", "initial", "unset", "flow-root", "left", "AUTO", "Solid", "contents")]
               + [px(3), px(0), px(12.5), em(1), em(0.5), pct(10), pct(0), number(0), number(1), number(16), rgb(1, 2, 3), named("red"),
                  TRANSPARENT, rgb(9, 8, 7, a=0.4), rgb(17, 34, 51, form=2)]
               + [Tok(t, "dim", u, n) for t, u, n in (("+5px", "px", 5000), (".5em", "em", 500), ("1e1px", "px", 10000), ("5PX", "px", 5000),
                                                       ("2.50Em", "em", 2500), ("+.25px", "px", 250), ("1E0px", "px", 1000),
                                                       ("70e-1px", "px", 7000), ("\\\\35 px", "none", 0))]
               + [Tok("+0", "num", "", 0), Tok("0.0", "num", "", 0), Tok("-0", "num", "", 0), Tok("0e3", "num", "", 0),
                  Tok("+1.5%", "pct", "", 1500)]
               + [Tok(t, "num", "", n) for t, n in ((".5", 500), ("-0.25", -250), ("0.9", 900), ("1e-3", 1), ("+.75", 750))])
GOOD_TOKENS = [t for t in GOOD_TOKENS if t.s != "none" or t.t == "ident"]

C06_PROPS = (LENGTHS + ["color", "background-color", "display", "position", "border-top-style", "border-left-style", "border-right-style",
                        "margin", "padding", "border-width", "border-style", "border-top", "background", "float"])

NON_DECLARATIONS = ["foo", "color", "color red", ": red", "color:", "width: ", "12px: 3px", "#a: b", "{}", "{color: red}", "a {color: red}",
                    "a {width: 3px; height: 4px}", "@foo bar", "@foo {width: 9px}", "@media x {a: b}", "--x: y", "-foo-width: 3px",
                    "*width: 3px", "wid th: 3px", "widthx: 3px", "$width: 3px", "w/**/idth: 3px", "color = red", "!important",
                    "height !important: 3px", "height::3px", "height:=3px", "padding-left: 3px 4px", "content: \"abc\n", "content: 'x\n\n",
                    "filter: progid:x.y(a=1, b='c')", "background: url(data:x;y)", "color: ]", "color: )", "/* x: y; */ foo", "\\", "a\\",
                    "width: 3px !", "width: 3px !important!", "width: 3px !important important", "color: rgb(1,2", "?: x"]
# what ends a declaration list early or swallows what follows it
SWALLOWS = {"color: rgb(1,2", "\\", "a\\"}

BAD_PRELUDES = ["div:hover", "div::before", ":foo", "div >> b", "> div", "div,", ",div", "div,,b", ".1a", "#1a", "[a=]", "[a=b c]", "[=x]",
                "[]", "div:not()", ":nth-child(foo)", ":nth-child(n n)", ":nth-child()", "ns|div", "ns|*", "", "div:hover, div",
                "div, :foo", "*, div > ", "div + > b", "div)", "div]", "}", "} div", ";", "; div", "$x", "1px", "'div'", "div 'x'",
                "div.", "div#", "div:", "::", "div!", "div ]", "[a~b]", "[a=b x]", "@", ".a.1", "*|", "div||b",
                "div ! b", "div /x/ b", "%", "\\", "div:first-child()", ":root(1)", ":not(div b)", ":not(:foo)"]
AT_RULES = ["@foo;", "@foo bar baz;", "@foo { * { width: 7px !important } }", "@foo a { width: 1px; } ", "@font-face { width: 7px }",
            "@page { margin: 7px }", "@page :first { * { color: red } }", '@charset "x";', "@-x-y url(;);", '@foo "};";', "@foo (;) {}",
            "@foo { { } } ", "@foo {[}]}", "<!--", "-->", "/* * { width: 1px } */", "/**/", "@import 'nothing';",
            "@\\66oo x { * { padding-left: 50px !important } }", "@foo {\n* { padding-left: 50px !important }\n}"]


def random_bad_value(rng, p):
    """A declaration that may or may not be valid: the specification decides"""
    n = rng.choice([1, 1, 1, 2, 2, 3, 4, 5])
    if n == 1 or rng.random() < 0.3:
        toks = [rng.choice(BAD_TOKENS if rng.random() < 0.6 else GOOD_TOKENS) for _ in range(n)]
    else:
        toks = [rng.choice(GOOD_TOKENS) for _ in range(n)]
        if rng.random() < 0.3:
            toks[rng.randrange(n)] = rng.choice(BAD_TOKENS)
    if p in ("margin", "padding", "border-width", "border-style", "border-color") and n == 4:
        toks[3] = toks[1]
    return toks


NO_VALUE = ("margin", "padding", "border-width", "border-style", "border-top", "background")


def c06_ok(p, toks):
    """Outside of what the specification covers: negative sizes, floats"""
    return not (p == "float" and len(toks) == 1 and toks[0].s in ("left", "right"))


def bad_declarations(rng, pal):
    if rng.random() < 0.35:
        t = rng.choice(NON_DECLARATIONS)
        return Decl("", text=t)
    while True:
        p = rng.choice(C06_PROPS)
        toks = random_bad_value(rng, p)
        if c06_ok(p, toks):
            return Decl(p, *toks, imp=rng.random() < 0.3)


def good_declarations(rng, pal):
    out = [Decl("background-color", pal.next())]
    for p in rng.sample(LENGTHS, rng.choice([2, 4, 6])):
        v = c05_value(rng, p, pal)
        out.append(Decl(p, v))
    if rng.random() < 0.5:
        out.append(Decl("color", pal.next()))
    if rng.random() < 0.7:
        out.append(Decl("border-style", ident("solid")))
    rng.shuffle(out)
    return out


def spoiled(rng, pal, good):
    out = list(good)
    for _ in range(rng.choice([1, 2, 3, 5])):
        b = bad_declarations(rng, pal)
        if b.raw in SWALLOWS:
            out.append(b)
            break
        out.insert(rng.randrange(len(out) + 1), b)
    # what swallows the rest comes last
    out.sort(key=lambda d: d.raw in SWALLOWS)
    return out


def C06(c):
    rng = c.rng
    docs = []
    # every bad token as the value of every kind of property, after a good one
    kinds = ["width", "margin-left", "padding-left", "border-left-width", "border-left-style", "background-color", "color", "font-size",
             "display", "position", "margin", "padding", "border-style", "border-top", "background"]
    singles = [(p, [t], i) for p in kinds for t in BAD_TOKENS + GOOD_TOKENS for i in (False, True)
               if not (p == "display" and t.s in ("none",))]
    singles += [(p, [a, b], False) for p in kinds for a in rng.sample(GOOD_TOKENS, c.n(8, 40)) for b in rng.sample(BAD_TOKENS + GOOD_TOKENS, c.n(4, 60))]
    rng.shuffle(singles)
    for group in chunks(singles[:c.n(1500, 9000)], 6):
        pal = Palette(rng)
        body = El("body")
        rules = []
        for k, (p, toks, imp) in enumerate(group):
            good = [Decl("background-color", pal.next()), Decl("width", px(90)), Decl("height", px(12)), Decl("border-style", ident("solid")),
                    Decl("padding-left", px(2)), Decl("color", pal.next())]
            bad = Decl(p, *toks, imp=imp)
            after = [Decl("margin-right", px(1)), Decl("padding-right", px(4))]
            el = El("div", Text("x"))
            if rng.random() < 0.5:
                el.style = good + [bad] + after
            else:
                el.cls = ["c%d" % k]
                rules.append(Rule([Sel(("", [class_("c%d" % k)]))], good + [bad] + after))
            body.ch.append(el)
        docs.append(Doc(body, [rules]))
    for _ in range(c.n(900, 9000)):
        pal = Palette(rng)
        els = [El("div", El("b", Text("x")) if rng.random() < 0.5 else Text("y"), cls=["a" if rng.random() < 0.5 else "b"],
                  style=spoiled(rng, pal, good_declarations(rng, pal)) if rng.random() < 0.6 else good_declarations(rng, pal))
               for _ in range(rng.choice([1, 2, 3]))]
        sheets = []
        for _ in range(rng.choice([1, 1, 2])):
            rules = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                sels = [rng.choice([[class_("a")], [class_("b")], [type_("div")], [type_("b")], [any_(), class_("a")]])]
                decls = good_declarations(rng, pal)
                if rng.random() < 0.5:
                    decls = [d for d in spoiled(rng, pal, decls) if d.raw not in SWALLOWS]
                if rng.random() < 0.4:
                    decls = [Decl(d.p, *d.toks, imp=d.raw is None and rng.random() < 0.3, text=d.raw) for d in decls]
                rules.append(Rule([Sel(("", s)) for s in sels], decls))
                if rng.random() < 0.5:
                    rules.append(Junk(rng.choice(AT_RULES)))
                elif rng.random() < 0.5:
                    pre = rng.choice(BAD_PRELUDES)
                    rules.append(Junk("%s { %s }" % (pre, decls_text(good_declarations(rng, pal) + [Decl("padding-left", px(60), imp=True)]))))
            rng.shuffle(rules)
            r = rng.random()
            if r < 0.1:
                rules.append(Junk("/* unfinished * { width: 3px }"))
            elif r < 0.2:
                rules.append(Junk("@foo { * { width: 3px }"))
            elif r < 0.3:
                rules.append(Junk("div"))
            sheets.append(rules)
        docs.append(Doc(El("body", *els), sheets))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "errors", docs)


# ------------------------------------------------------------------ C07

FOUR = "four values of margin, padding or border-width/style: the second is used on the left side and the fourth on the right"


def four_values(rng, name, n):
    if name == "border-style":
        return [ident(rng.choice(["solid", "none"])) for _ in range(n)]
    pool = [px(x) for x in rng.sample([1, 3, 6, 10, 15, 21, 28], n)]
    for k in range(n):
        if rng.random() < 0.25:
            pool[k] = em(rng.choice([0.5, 1, 2])) if rng.random() < 0.5 else pct(rng.choice([1, 5]))
        if name == "margin" and rng.random() < 0.15:
            pool[k] = AUTO
        if name == "border-width" and rng.random() < 0.3:
            pool[k] = ident(rng.choice(["thin", "medium", "thick"]))
        if rng.random() < 0.1:
            pool[k] = number(0)
    return pool


def side_names(name):
    pre, _, post = name.partition("-")
    return ["%s-%s%s" % (pre, s, "-" + post if post else "") for s in SIDES]


def border_top_values(rng, pal):
    parts = []
    if rng.random() < 0.7:
        parts.append(ident(rng.choice(["solid", "solid", "none"])))
    if rng.random() < 0.6:
        parts.append(rng.choice([px(7), ident("thin"), ident("thick"), em(0.5), number(0), px(2.5), pct(2)]))
    if rng.random() < 0.5:
        parts.append(rng.choice([pal.next(), ident("currentcolor"), named("red")]))
    if rng.random() < 0.1 and parts:
        parts.append(rng.choice(parts))
    if not parts:
        parts.append(ident("solid"))
    rng.shuffle(parts)
    return parts


SHORT = ["margin", "padding", "border-width", "border-style", "border-color", "border-top", "background"]


def shorthand(rng, pal, name, n, imp=False):
    if rng.random() < 0.08:
        return Decl(name, ident(rng.choice(WIDE)), imp=imp)
    if name == "background":
        return Decl(name, rng.choice([pal.next(), TRANSPARENT, ident("currentcolor"), named("teal"), pal.next(0.5)]), imp=imp)
    if name == "border-top":
        return Decl(name, *border_top_values(rng, pal), imp=imp)
    if name == "border-color":
        return Decl(name, *[pal.next() for _ in range(n)], imp=imp)
    return Decl(name, *four_values(rng, name, n), imp=imp)


def longhand_of(rng, pal, name, imp=False):
    if name == "background":
        return Decl("background-color", pal.next(), imp=imp)
    if name == "border-top":
        p = rng.choice(["border-top-style", "border-top-width", "border-top-color"])
        return Decl(p, {"s": ident("solid"), "w": px(9), "c": pal.next()}[p[11]], imp=imp)
    if name == "border-color":
        return Decl("border-%s-color" % rng.choice(SIDES), pal.next(), imp=imp)
    p = rng.choice(side_names(name))
    return Decl(p, four_values(rng, name, 1)[0], imp=imp)


def C07(c):
    rng = c.rng
    docs, fours = [], []
    N = c.n(900, 14000)
    for k in range(N):
        pal = Palette(rng)
        body = El("body")
        rules = []
        four = False
        names = rng.sample(SHORT, rng.choice([1, 1, 2]))
        for j in range(rng.choice([1, 2])):
            decls = [Decl("background-color", pal.next())] if "background" not in names or rng.random() < 0.5 else []
            if "border-width" in names or rng.random() < 0.3:
                decls.append(Decl("border-style", ident("solid")))
            if "border-style" in names or rng.random() < 0.2:
                decls += [Decl("border-%s-width" % s, px(2 + 3 * i)) for i, s in enumerate(SIDES)]
            imp = rng.random() < 0.3
            n = rng.choice([1, 2, 3, 4])
            for name in names:
                seq = [shorthand(rng, pal, name, n, imp and rng.random() < 0.5)]
                for _ in range(rng.choice([0, 1, 2])):
                    seq.insert(rng.randrange(len(seq) + 1), longhand_of(rng, pal, name, imp and rng.random() < 0.5))
                if rng.random() < 0.2:
                    seq.insert(rng.randrange(len(seq) + 1), shorthand(rng, pal, name, n, imp and rng.random() < 0.5))
                decls += seq
            four = four or any(len(d.toks) == 4 and d.toks[1].text != d.toks[3].text for d in decls)
            el = El("div", Text("x"))
            r = rng.random()
            if r < 0.5:
                el.style = decls
            else:
                el.cls = ["c%d" % j]
                cut = rng.randrange(len(decls) + 1) if r < 0.8 else len(decls)
                rules.append(Rule([Sel(("", [class_("c%d" % j)]))], decls[:cut]))
                el.style = decls[cut:]
            body.ch.append(El("div", el, style=[Decl("display", ident("flow-root")), Decl("background-color", pal.next()),
                                                Decl("color", pal.next()), Decl("font-size", px(rng.choice([10, 16])))]))
        d = Doc(body, [rules])
        d.four = four
        (fours if four else docs).append(d)
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "shorthands", docs)
    judge_docs(c, "shorthands with four values", fours, known=lambda d: FOUR if d.four else None)


# ------------------------------------------------------------------ C08

def visible_tree(rng, pal, depth, budget, inline=False):
    """Elements of every display, with every kind of background"""
    style = []
    tag = rng.choice(["div", "div", "span", "span", "p-q", "section"])
    if rng.random() < 0.6:
        style.append(Decl("display", ident(rng.choice(["block", "inline", "none", "contents", "contents", "flow-root", "block", "inline"]))))
    r = rng.random()
    if r < 0.6:
        style.append(Decl(rng.choice(["background", "background-color"]), pal.next()))
    elif r < 0.75:
        style.append(Decl("background-color", pal.next(rng.choice([0, 0.001, 0.003, 0.004, 0.01, 0.5, 0.99, 0.997, 1]))))
    elif r < 0.8:
        style.append(Decl("background-color", rng.choice([TRANSPARENT, ident("currentcolor")])))
    if rng.random() < 0.3:
        style.append(Decl("color", rng.choice([pal.next(), pal.next(0.5)])))
    if rng.random() < 0.3:
        style.append(Decl(rng.choice(["padding", "margin", "padding-left"]), px(rng.choice([1, 3, 8]))))
    if rng.random() < 0.15:
        style.append(Decl("height", px(rng.choice([0, 7]))))
    if rng.random() < 0.12:
        style.append(Decl("position", ident("relative")))
        style.append(Decl("left", px(5)))
    elif rng.random() < 0.1:
        style.append(Decl("position", ident("absolute")))
        if rng.random() < 0.6:
            style += [Decl("left", px(30)), Decl("top", px(rng.choice([10, 70]))), Decl("width", px(50))]
    attrs = {}
    if rng.random() < 0.06:
        attrs["hidden"] = ""
    el = El(tag, style=style, attrs=attrs)
    while depth > 0 and budget[0] > 0 and rng.random() < 0.8:
        budget[0] -= 1
        r = rng.random()
        if r < 0.35:
            el.ch.append(Text(rng.choice(["x", "yy zz", " ", "w ", " v"])))
        elif r < 0.42:
            el.ch.append(Comment("hidden"))
        elif r < 0.5:
            el.ch.append(rng.choice([lambda: El("script", Text("var x = 1")), lambda: El("style", Text("x { y: z }")),
                                     lambda: El("noframes", Text("n")), lambda: El("rp", Text("r")),
                                     lambda: El("hr", style=[Decl("background", pal.next())]),
                                     lambda: El("input", attrs={"type": "hidden"}, style=[Decl("background", pal.next())])])())
        else:
            el.ch.append(visible_tree(rng, pal, depth - 1, budget))
    return el


def display_pairs(rng):
    """A parent and a child of every display, between texts and blocks"""
    ds = ["block", "inline", "none", "contents", "flow-root"]
    for a in ds:
        for b in ds:
            for around in ("text", "block", "nothing"):
                for inner in ("text", "block", "empty"):
                    pal = Palette(rng)
                    mk = lambda d, *ch: El(rng.choice(["div", "b"]), *ch, style=[Decl("display", ident(d)), Decl("background", pal.next()),
                                                                                Decl("color", pal.next())])
                    leaf = [Text("x")] if inner == "text" else [mk("block", Text("y"))] if inner == "block" else []
                    child = mk(b, *leaf)
                    parent = mk(a, *([Text("m"), child, Text("n")] if rng.random() < 0.5 else [child]))
                    side = (lambda: [Text("t")]) if around == "text" else (lambda: [mk("block", Text("u"))]) if around == "block" else (lambda: [])
                    yield Doc(El("body", *side(), parent, *side(), style=[Decl("background", pal.next())]))


def C08(c):
    rng = c.rng
    docs = list(display_pairs(rng))
    for d in ("none", "contents", "inline", "flow-root", "block"):
        for which in ("html", "body", "both"):
            pal = Palette(rng)
            body = El("body", Text("x"), El("div", Text("y"), style=[Decl("background", pal.next())]), style=[Decl("background", pal.next())])
            hs = [Decl("background", pal.next())]
            if which != "html":
                body.style.append(Decl("display", ident(d)))
            if which != "body":
                hs.append(Decl("display", ident(d)))
            docs.append(Doc(body, html_style=hs))
    for _ in range(c.n(1200, 16000)):
        pal = Palette(rng)
        budget = [rng.choice([4, 8, 14])]
        body = El("body", *[visible_tree(rng, pal, 5, budget) for _ in range(rng.choice([1, 2, 3]))])
        if rng.random() < 0.4:
            body.ch.insert(rng.randrange(len(body.ch) + 1), Text("t"))
        html_style = [Decl("background", pal.next())] if rng.random() < 0.3 else []
        docs.append(Doc(body, html_style=html_style))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "painting", docs)
    judge_extremes(c, "painting", docs, c.n(300, 3000))


# ------------------------------------------------------------------ C09

def inline_style(rng, pal, p=0.35):
    s = [Decl("background", pal.next())]
    for side in ("left", "right"):
        if rng.random() < p:
            s.append(Decl("margin-" + side, px(rng.choice([3, 7, -2]))))
        if rng.random() < p:
            s.append(Decl("padding-" + side, px(rng.choice([2, 5]))))
        if rng.random() < p / 2:
            s += [Decl("border-%s-style" % side, ident("solid")), Decl("border-%s-width" % side, px(rng.choice([1, 4])))]
    if rng.random() < 0.1:
        s.append(Decl("padding-" + rng.choice(["top", "bottom"]), px(3)))
    if rng.random() < 0.15:
        s.append(Decl("font-size", px(rng.choice([10, 24]))))
    return s


def mixed(rng, pal, depth, budget, inline):
    """Children of a block container or of an inline box: texts, inline boxes and blocks in any order"""
    out = []
    while budget[0] > 0 and (not out or rng.random() < 0.8) and len(out) < 6:
        budget[0] -= 1
        r = rng.random()
        if r < 0.3 or depth == 0:
            out.append(Text(rng.choice(["x", "yy", " ", "\n", "a b", " c", "d "])))
        elif r < 0.6:
            out.append(El("span", *mixed(rng, pal, depth - 1, budget, True) if rng.random() < 0.9 else [], style=inline_style(rng, pal)))
        elif r < 0.85:
            s = [Decl("background", pal.next())]
            if rng.random() < 0.3:
                s.append(Decl("margin", px(rng.choice([4, 9]))))
            if rng.random() < 0.2:
                s.append(Decl("display", ident("flow-root")))
            out.append(El("div", *mixed(rng, pal, depth - 1, budget, False) if rng.random() < 0.8 else [], style=s))
        elif r < 0.9:
            out.append(Comment())
        elif r < 0.95:
            out.append(El("span", *mixed(rng, pal, depth - 1, budget, inline), style=[Decl("display", ident("contents"))]))
        else:
            out.append(El("div", Text("p"), style=[Decl("position", ident("absolute")), Decl("background", pal.next()),
                                                   Decl("left", px(3)), Decl("width", px(20))]))
    return out


def small_mixes(rng):
    """All sequences of up to four of: text, space, block, inline, inline with block"""
    def make(k, pal):
        st = lambda: inline_style(rng, pal, 0.7)
        return {"t": lambda: Text("x"), "w": lambda: Text(" "), "b": lambda: El("div", Text("y"), style=[Decl("background", pal.next())]),
                "e": lambda: El("div", style=[Decl("background", pal.next()), Decl("height", px(5))]),
                "i": lambda: El("span", Text("z"), style=st()),
                "j": lambda: El("span", El("div", Text("q"), style=[Decl("background", pal.next())]), style=st()),
                "k": lambda: El("span", Text("m"), El("div", Text("q"), style=[Decl("background", pal.next())]), Text("n"), style=st()),
                "n": lambda: El("span", style=st())}[k]()
    import itertools
    seqs = [s for n in (1, 2, 3, 4) for s in itertools.product("twbeijkn", repeat=n)]
    rng.shuffle(seqs)
    for s in seqs:
        for wrap in ("div", "span"):
            pal = Palette(rng)
            ch = [make(k, pal) for k in s]
            outer = El(wrap, *ch, style=inline_style(rng, pal) if wrap == "span" else [Decl("background", pal.next())])
            yield Doc(El("body", outer))


def C09(c):
    rng = c.rng
    docs = []
    for d in small_mixes(rng):
        docs.append(d)
        if len(docs) >= c.n(900, 9400):
            break
    for _ in range(c.n(1100, 12000)):
        pal = Palette(rng)
        budget = [rng.choice([6, 10, 18])]
        docs.append(Doc(El("body", *mixed(rng, pal, rng.choice([2, 4, 5]), budget, False), style=[Decl("background", pal.next())])))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "anonymous blocks", docs)
    judge_extremes(c, "anonymous blocks", docs, c.n(400, 4000))


# ------------------------------------------------------------------ C10

def ws(rng):
    n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.98 else rng.choice([9, 17, 33, 65, 70, 130, 260])
    return "".join(rng.choice([" ", " ", " ", "\t", "\n", "\f", "\r"]) for _ in range(n))


def spaced_text(rng):
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < 0.7:
            parts.append(ws(rng))
        parts.append(rng.choice(["a", "bc", "d", "é", "\u00a0", "\u3000", "e\u200bf", "\u2003", "-", ".", "\u00a0\u00a0"]))
    if rng.random() < 0.6 or not parts:
        parts.append(ws(rng))
    return "".join(parts)


def spaced(rng, pal, depth, budget):
    out = []
    while budget[0] > 0 and (not out or rng.random() < 0.8) and len(out) < 7:
        budget[0] -= 1
        r = rng.random()
        if r < 0.5 or depth == 0:
            out.append(Text(spaced_text(rng)))
        elif r < 0.6:
            out.append(Comment())
        elif r < 0.85:
            style = [Decl("background", pal.next())] if rng.random() < 0.7 else []
            if rng.random() < 0.2:
                style.append(Decl("padding-left", px(4)))
            if rng.random() < 0.15:
                style.append(Decl("display", ident(rng.choice(["none", "contents", "contents"]))))
            if rng.random() < 0.2:
                style.append(Decl("color", pal.next()))
            out.append(El(rng.choice(["span", "b"]), *spaced(rng, pal, depth - 1, budget) if rng.random() < 0.85 else [], style=style))
        elif r < 0.95:
            out.append(El("div", *spaced(rng, pal, depth - 1, budget), style=[Decl("background", pal.next())]))
        elif r < 0.97:
            # Floats are not laid out at all: they leave no trace
            out.append(El("div", Text(" p "), style=[Decl("float", ident(rng.choice(["left", "right"]))), Decl("background", pal.next())]))
        else:
            out.append(El("div", Text(" p "), style=[Decl("position", ident("absolute")), Decl("background", pal.next()),
                                                     Decl("left", px(3)), Decl("width", px(20))]))
    return out


def space_boundaries(rng):
    """White space or none at both sides of every kind of boundary"""
    for kind in ("open", "close", "both", "empty", "comment", "block", "none", "contents", "abs", "float", "nested"):
        for a in ("x", "x ", "x  \n", " ", ""):
            for b in ("y", " y", "\t\n y", " ", ""):
                for m in ("m", " m", "m ", " ", ""):
                    pal = Palette(rng)
                    st = [Decl("background", pal.next())]
                    B = lambda *ch, **kw: El("b", *[x for x in ch if not isinstance(x, Text) or x.s], style=st, **kw)
                    n = {"open": lambda: [Text(a), B(Text(m + b))], "close": lambda: [B(Text(a + m)), Text(b)],
                         "both": lambda: [Text(a), B(Text(m)), Text(b)], "empty": lambda: [Text(a), B(), Text(m), B(), Text(b)],
                         "comment": lambda: [Text(a), Comment(), Text(m), Comment(), Text(b)],
                         "block": lambda: [Text(a), El("div", Text(m), style=st), Text(b)],
                         "none": lambda: [Text(a), El("b", Text(m), style=[Decl("display", ident("none"))]), Text(b)],
                         "contents": lambda: [Text(a), El("b", Text(m), style=[Decl("display", ident("contents"))]), Text(b)],
                         "abs": lambda: [Text(a), El("b", Text(m), style=st + [Decl("position", ident("absolute"))]), Text(b)],
                         "float": lambda: [Text(a), El("b", Text(m), style=st + [Decl("float", ident("left"))]), Text(b)],
                         "nested": lambda: [Text(a), B(B(Text(m)), Comment(), B(Text(b)))]}[kind]()
                    yield Doc(El("body", *n))


def C10(c):
    rng = c.rng
    docs = list(space_boundaries(rng))
    rng.shuffle(docs)
    docs = docs[:c.n(1250, 1500)]
    for _ in range(c.n(900, 14000)):
        pal = Palette(rng)
        budget = [rng.choice([6, 10, 16])]
        docs.append(Doc(El("body", *spaced(rng, pal, rng.choice([2, 3, 4]), budget))))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "white space", docs)
    judge_extremes(c, "white space", docs, c.n(200, 2000), large=False)


# ------------------------------------------------------------------ everything together

def wild_style(rng, pal, depth):
    """Declarations of every property, of every kind of value"""
    s = []
    r = rng.random()
    if r < 0.75:
        s.append(Decl(rng.choice(["background", "background-color"]), pal.next(rng.choice([None, None, None, None, 0.5, 0.004, 0]))))
    elif r < 0.8:
        s.append(Decl("background-color", rng.choice([ident("currentcolor"), ident("inherit"), TRANSPARENT])))
    if rng.random() < 0.25:
        s.append(Decl("color", rng.choice([pal.next, pal.next, lambda: ident("currentcolor"), lambda: pal.next(0.5)])()))
    if rng.random() < 0.25:
        s.append(Decl("font-size", rng.choice([px(10), px(24), em(1.5), em(0.5), px(0), px(16), ident("inherit")])))
    if rng.random() < 0.45:
        s.append(Decl("display", ident(rng.choice(["block", "block", "inline", "inline", "flow-root", "contents", "none", "inherit"]
                                                  if depth else ["block", "inline", "flow-root"]))))
    r = rng.random()
    if r < 0.3:
        s.append(Decl("position", ident(rng.choice(["relative", "relative", "absolute", "absolute", "static"]))))
    if rng.random() < 0.05:
        s.append(Decl("float", ident(rng.choice(["left", "right", "none"]))))
    for p in ("left", "right", "top", "bottom"):
        if rng.random() < (0.4 if r < 0.3 else 0.05):
            s.append(Decl(p, pick(rng, (2, lambda: px(rng.choice([0, 5, -7.5, 40, 300]))), lambda: em(rng.choice([1, -0.5])),
                                  (0.5, lambda: number(0)), (0.5, AUTO),
                                  lambda: pct(rng.choice([0, 10, 50, -20, 100]) if p in ("left", "right") else rng.choice([0])))))
    if rng.random() < 0.35:
        s.append(Decl("width", pick(rng, (2, lambda: px(rng.choice([0, 1, 40, 120, 300, 700]))), lambda: em(rng.choice([0, 3, 8])),
                                    lambda: pct(rng.choice([0, 30, 100, 150])), AUTO)))
    if rng.random() < 0.25:
        s.append(Decl("height", pick(rng, (2, lambda: px(rng.choice([0, 6, 20, 60]))), lambda: em(rng.choice([0, 2])),
                                     lambda: pct(rng.choice([0, 50, 100, 120])), (0.5, AUTO))))
    if rng.random() < 0.6:
        edges(rng, s, rng.choice([0.1, 0.3]))
    if rng.random() < 0.15:
        n = rng.choice(["margin", "padding", "border-width", "border-style", "border-top", "margin", "padding"])
        s.append(shorthand(rng, pal, n, rng.choice([1, 2, 3])) if rng.random() < 0.8 else Decl(n, ident(rng.choice(WIDE))))
    if rng.random() < 0.15:
        s.append(Decl(rng.choice(C05_PROPS), ident(rng.choice(WIDE))))
    for d in s:
        if rng.random() < 0.04:
            d.imp = True
    rng.shuffle(s)
    return s


def wild_tree(rng, pal, depth, budget):
    el = El(rng.choice(["div", "div", "div", "span", "span", "b", "section", "p-q"]), style=wild_style(rng, pal, depth))
    while depth > 0 and budget[0] > 0 and len(el.ch) < 6 and rng.random() < 0.8:
        budget[0] -= 1
        r = rng.random()
        if r < 0.18:
            el.ch.append(Text(spaced_text(rng)))
        elif r < 0.3:
            el.ch.append(Text(words(rng, rng.choice([1, 2, 5, 9]))))
        elif r < 0.34:
            el.ch.append(Comment())
        else:
            el.ch.append(wild_tree(rng, pal, depth - 1, budget))
    return el


def wild_docs(rng, n):
    """Documents that use everything at once"""
    for _ in range(n):
        pal = Palette(rng)
        budget = [rng.choice([4, 8, 14])]
        body = El("body", *[wild_tree(rng, pal, 5, budget) for _ in range(rng.choice([1, 2, 3]))])
        if rng.random() < 0.4:
            body.style = wild_style(rng, pal, 0)
        html_style = wild_style(rng, pal, 0) if rng.random() < 0.2 else []
        yield Doc(body, html_style=html_style)


# ------------------------------------------------------------------ C13

def offsets(rng, style, inline, block_height):
    """left, right, top, bottom of a relatively positioned box"""
    for p in ("left", "right", "top", "bottom"):
        if rng.random() < 0.45:
            vertical = p in ("top", "bottom")
            v = pick(rng, lambda: px(rng.choice([-30, -7.5, 4, 11, 50])), (0.4, lambda: em(rng.choice([-1, 0.5, 2]))), (0.15, AUTO),
                     (0.7, lambda: pct(rng.choice([-10, 5, 25, 50]))), (0.1, lambda: number(0)))
            # (the implementation treats the height of every anonymous block as auto)
            if vertical and inline and v.t == "pct":
                v = px(6)
            style.append(Decl(p, v))


def relative_tree(rng, pal, depth, budget, inline=False, p_rel=0.5):
    style = [Decl("background", pal.next())]
    if rng.random() < p_rel:
        style.append(Decl("position", ident("relative")))
        offsets(rng, style, inline, None)
    elif rng.random() < 0.2:
        offsets(rng, style, inline, None)
    if not inline:
        if rng.random() < 0.4:
            style.append(Decl("height", pick(rng, lambda: px(rng.choice([20, 50])), lambda: pct(rng.choice([50, 100])))))
        if rng.random() < 0.3:
            style.append(Decl("width", pick(rng, lambda: px(rng.choice([100, 200])), lambda: pct(rng.choice([50, 80])))))
        if rng.random() < 0.3:
            style.append(Decl(rng.choice(["margin", "padding", "margin-top", "padding-left"]), px(rng.choice([5, 12]))))
    elif rng.random() < 0.3:
        style.append(Decl(rng.choice(["padding-left", "margin-left", "padding-right"]), px(4)))
    el = El("span" if inline else "div", style=style)
    n = 0
    while depth > 0 and budget[0] > 0 and n < 5 and rng.random() < 0.85:
        n += 1
        budget[0] -= 1
        r = rng.random()
        if r < 0.3:
            el.ch.append(Text(rng.choice(["x", "some words in a line ", "y "])))
        elif inline or r < 0.5:
            el.ch.append(relative_tree(rng, pal, depth - 1, budget, True, p_rel))
        elif r < 0.9:
            el.ch.append(relative_tree(rng, pal, depth - 1, budget, False, p_rel))
        else:
            el.ch.append(El("div", Text("a"), style=[Decl("position", ident("absolute")), Decl("background", pal.next()),
                                                     Decl(rng.choice(["left", "right"]), px(3)), Decl("width", px(30)),
                                                     Decl(rng.choice(["top", "bottom", "top"]), rng.choice([px(5), pct(50), AUTO]))]))
    return el


def C13(c):
    rng = c.rng
    docs = []
    # every combination of the four offsets, with and without a specified height
    vals = [AUTO, px(10), px(-15), pct(20)]
    combos = [(l, r, t, b, h) for l in vals for r in vals for t in vals for b in vals for h in (None, px(80), pct(50))]
    rng.shuffle(combos)
    for group in chunks(combos, 6):
        pal = Palette(rng)
        body = El("body")
        for l, r, t, b, h in group:
            inner = El("div", El("div", Text("x"), style=[Decl("background", pal.next())]),
                       style=[Decl("background", pal.next()), Decl("position", ident("relative")), Decl("left", l), Decl("right", r),
                              Decl("top", t), Decl("bottom", b)])
            rng.shuffle(inner.style)
            body.ch.append(El("div", El("div", style=[Decl("background", pal.next()), Decl("height", px(3))]), inner,
                              El("div", style=[Decl("background", pal.next()), Decl("height", px(3))]),
                              style=[Decl("background", pal.next()), Decl("width", px(rng.choice([200, 300])))] + ([Decl("height", h)] if h else [])))
        docs.append(Doc(body))
    for _ in range(c.n(1000, 13000)):
        pal = Palette(rng)
        budget = [rng.choice([4, 8, 12])]
        body = El("body", *[relative_tree(rng, pal, 5, budget) for _ in range(rng.choice([1, 2, 3]))])
        if rng.random() < 0.3:
            body.style = [Decl("height", rng.choice([px(200), pct(50)]))]
        html_style = [Decl("height", pct(100))] if rng.random() < 0.3 else []
        if rng.random() < 0.2:
            body.style += [Decl("position", ident("relative")), Decl("left", px(9)), Decl("background", pal.next())]
        docs.append(Doc(body, html_style=html_style))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "relative positions", docs)
    judge_extremes(c, "relative positions", docs, c.n(400, 4000))


# ------------------------------------------------------------------ C14

def axis(rng, style, names, combo):
    """start offset, size, end offset, start margin, end margin"""
    for p, v in zip(names, combo):
        if v is not None:
            style.append(Decl(p, v))


H_AXIS = ("left", "width", "right", "margin-left", "margin-right")
V_AXIS = ("top", "height", "bottom", "margin-top", "margin-bottom")


def axis_combos(rng):
    off = [None, px(17), pct(10)]
    size = [None, px(60), pct(40), px(400)]
    mar = [None, AUTO, px(9), px(-6)]
    return [(a, s, b, m1, m2) for a in off for s in size for b in off for m1 in mar for m2 in mar]


def abs_style(rng, pal, h, v):
    s = [Decl("background", pal.next()), Decl("position", ident("absolute"))]
    axis(rng, s, H_AXIS, h)
    axis(rng, s, V_AXIS, v)
    for p in ("padding-left", "padding-right", "padding-top", "padding-bottom"):
        if rng.random() < 0.25:
            s.append(Decl(p, rng.choice([px(3), px(8), pct(2)])))
    if rng.random() < 0.25:
        side = rng.choice(SIDES)
        s += [Decl("border-%s-style" % side, ident("solid")), Decl("border-%s-width" % side, px(4))]
    rng.shuffle(s)
    return s


def abs_tree(rng, pal, depth, budget, combos):
    """Blocks, texts and inline boxes, some positioned, in any nesting"""
    out = []
    while budget[0] > 0 and len(out) < 5 and (not out or rng.random() < 0.75):
        budget[0] -= 1
        r = rng.random()
        kids = lambda: abs_tree(rng, pal, depth - 1, budget, combos) if depth > 0 and rng.random() < 0.8 else []
        if r < 0.2:
            out.append(Text(rng.choice(["x", "words in a row ", " "])))
        elif r < 0.5:
            out.append(El(rng.choice(["div", "div", "span"]), *kids(), style=abs_style(rng, pal, rng.choice(combos), rng.choice(combos))))
        elif r < 0.85:
            s = [Decl("background", pal.next())]
            if rng.random() < 0.4:
                s.append(Decl("position", ident("relative")))
                if rng.random() < 0.5:
                    s.append(Decl("left", px(13)))
                if rng.random() < 0.3:
                    s.append(Decl("top", px(-4)))
            if rng.random() < 0.4:
                s.append(Decl("height", rng.choice([px(70), px(150)])))
            if rng.random() < 0.3:
                s.append(Decl("width", rng.choice([px(150), px(300), pct(60)])))
            for p in ("padding-left", "padding-top", "margin-left", "margin-top", "padding-bottom", "padding-right"):
                if rng.random() < 0.2:
                    s.append(Decl(p, px(rng.choice([5, 12]))))
            if rng.random() < 0.15:
                s += [Decl("border-left-style", ident("solid")), Decl("border-left-width", px(6))]
            out.append(El("div", *kids(), style=s))
        else:
            s = [Decl("background", pal.next())]
            if rng.random() < 0.3:
                s.append(Decl("padding-left", px(5)))
            out.append(El("b", *kids(), style=s))
    return out


def C14(c):
    rng = c.rng
    combos = axis_combos(rng)
    docs = []
    hs = combos * 2
    vs = combos * 2
    rng.shuffle(hs)
    rng.shuffle(vs)
    for group in chunks(list(zip(hs, vs)), 4):
        pal = Palette(rng)
        cb = [Decl("background", pal.next()), Decl("position", ident("relative")), Decl("height", rng.choice([px(120), px(90), px(300)]))]
        if rng.random() < 0.7:
            cb.append(Decl("width", px(rng.choice([150, 250, 420.5]))))
        if rng.random() < 0.5:
            cb += [Decl("padding-left", px(11)), Decl("padding-top", px(7)), Decl("padding-bottom", px(3)), Decl("padding-right", px(2))]
        if rng.random() < 0.4:
            cb += [Decl("border-style", ident("solid")), Decl("border-width", px(6))]
        if rng.random() < 0.2:
            cb = [d for d in cb if d.p not in ("position",)]
        kids = [El("div", *([Text("x")] if rng.random() < 0.6 else []), style=abs_style(rng, pal, h, v)) for h, v in group]
        inner = kids if rng.random() < 0.6 else [El("div", *kids, style=[Decl("background", pal.next()), Decl("padding", px(5))])]
        if rng.random() < 0.3:
            inner.insert(rng.randrange(len(inner) + 1), Text("text "))
        docs.append(Doc(El("body", El("div", *inner, style=cb))))
    for _ in range(c.n(900, 13000)):
        pal = Palette(rng)
        budget = [rng.choice([4, 8, 12])]
        body = El("body", *abs_tree(rng, pal, 4, budget, combos))
        if rng.random() < 0.3:
            body.style = rng.choice([[Decl("position", ident("relative"))], [Decl("margin", px(0))],
                                     abs_style(rng, pal, rng.choice(combos), rng.choice(combos))])
        html_style = rng.choice([[Decl("position", ident("relative")), Decl("padding", px(4))], [Decl("position", ident("absolute"))],
                                 [Decl("background", pal.next()), Decl("margin", px(6))]]) if rng.random() < 0.25 else []
        docs.append(Doc(body, html_style=html_style))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "absolute positions", docs)
    judge_extremes(c, "absolute positions", docs, c.n(400, 4000))


# ------------------------------------------------------------------ C15

LONG = ["a", "to", "the", "fox", "lazy", "quick", "jumps", "overly", "wonderful", "i", "WWW", "x1", "-", "é", "naïve", "extraordinarily",
        "re-enter", "a\u00a0b", "(x)", "1,000.50", "日本", "e\u0301", "https://example.com/x"]


def line_text(rng, n):
    t = " ".join(rng.choice(LONG) for _ in range(n))
    if rng.random() < 0.4:
        t = " " + t
    if rng.random() < 0.4:
        t += " "
    return t


def inline_content(rng, pal, depth, budget):
    out = []
    while budget[0] > 0 and len(out) < 6 and (not out or rng.random() < 0.75):
        n = rng.choice([1, 2, 4, 8, 15])
        budget[0] -= n
        if rng.random() < 0.55 or depth == 0:
            out.append(Text(line_text(rng, n)))
        else:
            s = [Decl("background", pal.next())] if rng.random() < 0.85 else []
            for p in ("margin-left", "margin-right", "padding-left", "padding-right"):
                if rng.random() < 0.2:
                    s.append(Decl(p, px(rng.choice([3, 8, 20]))))
            for p in ("padding-top", "padding-bottom", "margin-top", "margin-bottom"):
                if rng.random() < 0.06:
                    s.append(Decl(p, px(rng.choice([2, 9]))))
            if rng.random() < 0.15:
                side = rng.choice(SIDES)
                s += [Decl("border-%s-style" % side, ident("solid")), Decl("border-%s-width" % side, px(3))]
            if rng.random() < 0.25:
                s.append(Decl("font-size", rng.choice([px(8), px(24), px(13.5), em(1.5)])))
            if rng.random() < 0.2:
                s.append(Decl("color", pal.next()))
            if rng.random() < 0.1:
                s += [Decl("position", ident("relative")), Decl("left", px(6)), Decl("top", px(-3))]
            out.append(El("span", *inline_content(rng, pal, depth - 1, budget), style=s))
    return out


def exact_fit(rng, adv):
    """A text the first words of which are exactly as wide as their container, or an eighth of a px more or less"""
    pal = Palette(rng)
    fs = rng.choice([16, 32, 64, 64, 128])
    while True:
        words = [rng.choice(LONG) for _ in range(rng.choice([2, 3, 5, 8]))]
        w = [sum(adv.get(ord(ch), adv[0]) for ch in " ".join(words[:k + 1])) * fs / 256 for k in range(len(words))]
        good = [x for x in w if x == int(x) and x < 8000]
        if good:
            break
    w = (rng.choice(good) + rng.choice([0, 0, 0, -1, 1])) / 8
    s = [Decl("width", px(w)), Decl("font-size", px(fs)), Decl("background", pal.next())]
    k = rng.choice([0, 0, rng.randrange(1, len(words))])
    ch = [Text(" ".join(words))]
    if k:
        # the line goes on in an inline box with edges that leave as much less room
        edges = rng.choice([0, 0, 3, 20])
        s[0] = Decl("width", px(w + edges))
        inner = [Decl("background", pal.next())] + ([Decl(rng.choice(["margin-left", "padding-left"]), px(edges))] if edges else [])
        ch = [Text(" ".join(words[:k]) + " "), El("span", Text(" ".join(words[k:])), style=inner)]
    elif rng.random() < 0.3:
        ch = [El("span", *ch, style=[Decl("background", pal.next())])]
    return Doc(El("body", El("div", *ch, style=s)))


def C15(c):
    rng = c.rng
    font = fontgen.Reader(open(VERA, "rb").read())
    adv = {k: font.adv[g] for k, g in font.map.items()}
    adv[0] = font.adv[0]
    docs = []
    # the same words at every width around their own
    for _ in range(c.n(30, 300)):
        text = [rng.choice(LONG) for _ in range(6)]
        for w in range(4, 260, rng.choice([7, 11, 13])):
            pal = Palette(rng)
            cut = rng.randrange(1, 6)
            ch = [Text(" ".join(text))] if rng.random() < 0.4 else \
                [Text(" ".join(text[:cut]) + " "), El("span", Text(" ".join(text[cut:])), style=[Decl("background", pal.next())])]
            docs.append(Doc(El("body", El("div", *ch, style=[Decl("width", px(w + 0.25)), Decl("background", pal.next())]))))
    rng.shuffle(docs)
    docs = docs[:c.n(350, 5000)]
    for _ in range(c.n(250, 3000)):
        docs.append(exact_fit(rng, adv))
    for _ in range(c.n(500, 8000)):
        pal = Palette(rng)
        body = El("body")
        for _ in range(rng.choice([1, 2])):
            budget = [rng.choice([8, 20, 35])]
            s = [Decl("background", pal.next()), Decl("width", px(rng.choice([30, 77, 120.5, 200, 333, 500])))]
            if rng.random() < 0.2:
                s.append(Decl("padding", px(5)))
            if rng.random() < 0.2:
                s.append(Decl("font-size", px(rng.choice([10, 20]))))
            body.ch.append(El("div", *inline_content(rng, pal, 4, budget), style=s))
        docs.append(Doc(body))
    docs += wild_docs(rng, c.n(600, 6000))
    judge_docs(c, "lines", docs)
    judge_extremes(c, "lines", docs, c.n(200, 2000), large=False)
