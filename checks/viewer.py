"""C31: what a reader of PDF files shows and reads of a rendered document, judged by spec/Viewer.tla."""
import json, os
import vlib, fontgen
from vlib import Harness, tlc, write_ndjson
from htmldoc import *
from pdf import call
import render, raster

CFG = """SPECIFICATION ViewSpec
CONSTANTS
  TraceFile = "%s"
  FontFile = "%s"
  Aspects = {"order", "x", "y"}
INVARIANT Conforms
INVARIANT Report
INVARIANT ReportLegible
"""
# Of letters whose shape is a rectangle, with no line break between them
BARS = ["I", "l", "Il", "lIl", "_", "l_I", "¯", "ı", "Iı_l", "IIII", "___"]
FONT = None


def font_file(c):
    global FONT
    FONT = fontgen.Reader(open(render.VERA, "rb").read())
    path = os.path.join(c.work, "viewer-font.ndjson")
    g = [FONT.map.get(k, 0) for k in range(max(FONT.map) + 1)]
    write_ndjson(path, [dict(g=g, adv=[FONT.adv[x] for x in g], asc=FONT.ascender, upem=FONT.upem,
                             gadv=FONT.adv, ink=[FONT.ink(k) for k in range(FONT.glyph_count)])])
    return path


def text(rng):
    return " ".join(rng.choice(BARS if rng.random() < .7 else ["Ax", "quick", "fox", "é"]) for _ in range(rng.choice([1, 1, 2, 3, 6])))


def style(rng, pal, inline):
    s = []
    if rng.random() < .7:
        s.append(Decl("background", pal.next(rng.choice([None, None, None, .5, .25, .8, 0]))))
    if rng.random() < .5:
        s.append(Decl("color", pal.next(rng.choice([None, None, None, .5, .75, 0]))))
    if rng.random() < .6:
        s.append(Decl("font-size", px(rng.choice([20, 32, 40, 48, 60, 72, 90]))))
    if rng.random() < .3:
        s.append(Decl("position", ident(rng.choice(["relative", "absolute"] if not inline else ["relative"]))))
        for p in ("left", "top"):
            if rng.random() < .7:
                s.append(Decl(p, px(rng.choice([-40, -7.5, 5, 30, 33.25, 200, 560]))))
    if not inline:
        if rng.random() < .5:
            s.append(Decl("width", px(rng.choice([20, 80.5, 150, 300, 550]))))
        if rng.random() < .4:
            s.append(Decl("height", px(rng.choice([0, 10, 40.25, 120, 300]))))
        if rng.random() < .4:
            s.append(Decl(rng.choice(["margin-left", "margin-top", "margin"]), px(rng.choice([-30, -10.5, 12, 40]))))
    if rng.random() < .3:
        s.append(Decl(rng.choice(["padding-left", "padding", "padding-top"] if not inline else ["padding-left", "padding-right"]), px(rng.choice([3.5, 10, 24]))))
    return s


def tree(rng, pal, depth, budget, inline=False):
    el = El("span" if inline else "div", style=style(rng, pal, inline))
    for _ in range(rng.choice([1, 1, 2, 3])):
        if budget[0] <= 0 or depth == 0 or rng.random() < .4:
            el.ch.append(Text(text(rng)))
        else:
            budget[0] -= 1
            el.ch.append(tree(rng, pal, depth - 1, budget, inline or rng.random() < .35))
    return el


def documents(rng, n):
    for _ in range(n):
        pal = Palette(rng)
        budget = [rng.choice([2, 4, 8])]
        yield Doc(El("body", *[tree(rng, pal, 3, budget) for _ in range(rng.choice([1, 2, 3]))]))


def legible(rng, n):
    """Texts of all sorts of characters, none over another"""
    chars = [chr(k) for k in sorted(FONT.map) if k > 32 and k not in (0xa0, 0xad)]
    for _ in range(n):
        pal = Palette(rng)
        body = El("body")
        for _ in range(rng.choice([1, 2, 4])):
            el = El("div", style=[Decl("color", pal.next()), Decl("font-size", px(rng.choice([5, 10, 16, 20, 33.5]))), Decl("margin-top", px(30))])
            for k in range(rng.choice([1, 1, 2])):
                t = "".join(rng.choice(chars) for _ in range(rng.choice([1, 3, 8])))
                el.ch.append(Text(t) if k == 0 else El("span", Text(t), style=[Decl("color", pal.next()), Decl("margin-left", px(20))]))
            body.ch.append(el)
        yield Doc(body)


Palette = render.Palette


def points(rng, items, scale):
    """Where to look: about edges, at glyphs, anywhere"""
    pts = set()
    u = 10240 / scale

    def at(x, y):
        x, y = int(x // u), int(y // u)
        if 0 <= x < 600 * scale and 0 <= y < 800 * scale:
            pts.add((x, y))
    for i in items:
        if i["k"] == "rect":
            xs, ys = [i["x"], i["x"] + i["w"]], [i["y"], i["y"] + i["h"]]
            for x in xs:
                for y in ys:
                    at(x + rng.choice([-1.2, 1.2]) * u, y + rng.choice([-1.2, 1.2]) * u)
            at(rng.uniform(*xs), rng.uniform(*ys))
            at(rng.choice(xs) + rng.choice([-1.2, 1.2]) * u, rng.uniform(*ys))
            at(rng.uniform(*xs), rng.choice(ys) + rng.choice([-1.2, 1.2]) * u)
        else:
            x, size = i["x"], i["w"]
            for k, g in enumerate(i["g"]):
                ink = FONT.ink(g)
                if len(ink) == 4 and (k < 4 or k > len(i["g"]) - 4):
                    x0, y0, x1, y1 = [v * size / FONT.upem for v in ink]
                    at(x + (x0 + x1) / 2, i["y"] - (y0 + y1) / 2)
                    at(x + rng.choice([x0 - 2.4 * u, x1 + 2.4 * u, x0 + 2.4 * u, x1 - 2.4 * u]), i["y"] - rng.uniform(y0, y1))
                    at(x + rng.uniform(x0, x1), i["y"] - rng.choice([y0 - 2.4 * u, y1 + 2.4 * u, y0 + 2.4 * u, y1 - 2.4 * u]))
                x += (FONT.adv[g] * 1000 // FONT.upem) * size / 1000
            at(x + rng.uniform(0, 2) * size, i["y"] - rng.uniform(0, 1) * size)
    for _ in range(12):
        at(rng.uniform(0, 600) * 10240, rng.uniform(0, 800) * 10240)
    return sorted(pts)


def C31(c):
    rng = c.rng
    fonts = font_file(c)
    h, viewer = Harness(vlib.build()), Harness(raster.binary(), timeout=60)
    docs = list(documents(rng, c.n(260, 4000))) + list(legible(rng, c.n(80, 800))) + list(render.wild_docs(rng, c.n(80, 1000)))
    sources, recs = [], []
    for d in docs:
        merge_texts(d.html)
        src = d.source(rng)
        rec = d.rec()
        rec["error"], rec["items"] = "", []
        out = call(c, h, "html", src, what=src)
        pdf = out[0][1]
        scale = rng.choice([1, 2, 2, 4])
        rec["look"] = dict(w=0, h=0, scale=scale, pages=0, px=[], text=[])
        try:
            items = items_of(render.pdfread.read(pdf))
        except (render.pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError):
            items = []
        pts = points(rng, items, scale)
        parts = call(c, viewer, "look", pdf, str(scale), ",".join("%d %d" % p for p in pts), what=src)
        head = parts[0][1].decode()
        if head.startswith("error"):
            rec["error"] = "the file is not read: " + head
        else:
            n, w, hh = map(int, head.split())
            rec["look"].update(w=w, h=hh, pages=n)
            if n:
                rgb = parts[1][1]
                rec["look"]["px"] = [[*p, rgb[3 * k], rgb[3 * k + 1], rgb[3 * k + 2]] for k, p in enumerate(pts)]
                rec["look"]["text"] = [FONT.map.get(ord(x), 0) for x in parts[2][1].decode() if not x.isspace()]
        c.cov["pixels"] = c.cov.get("pixels", 0) + len(rec["look"]["px"])
        sources.append(src)
        recs.append(rec)
    h.close()
    viewer.close()
    path = os.path.join(c.work, "looks.ndjson")
    write_ndjson(path, recs)
    res = tlc("Viewer", CFG % (path, fonts), c.work, workers=8, timeout=880, coverage=False, heap="10g")
    if not res.ok:
        st = vlib.last_state(res.out)
        if "Invariant Conforms is violated" not in res.out:
            raise vlib.ToolError("Viewer.tla: " + res.out[-3000:])
        k = int(st["t"]) - 1
        c.violation("a reader does not show or read the document as it should: %s\ndocument:\n%s\nspecified:\n%s" % (
            st.get("verdict"), sources[k], render.compact(st.get("list", ""))),
            dict(document=sources[k], look=recs[k]["look"], scale=recs[k]["look"]["scale"], verdict=st.get("verdict"), expected=st.get("list")))
    c.add_tlc(res, "views")
    amb = sum(1 for p in res.prints if p == "ambiguous")
    c.cov["legible_documents"] = sum(1 for p in res.prints if p == "legible")
    c.cov["ambiguous_line_breaks"] = amb
    if amb > .2 * len(recs) + 2:
        raise vlib.ToolError("%d of %d documents have line breaks that are too close" % (amb, len(recs)))
    if c.cov["legible_documents"] < len(recs) // 20:
        raise vlib.ToolError("the text of %d documents only is legible" % c.cov["legible_documents"])
    c.cov["traces_validated_against_impl"] += len(recs) - amb
    c.sample(sources[0])
