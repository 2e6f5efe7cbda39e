"""C22, C23: plain-text layout, judged by spec/PlainTextTrace.tla."""
import json, struct
import vlib, pdfread, fontgen
from pdf import f32, hex32, LoadedFont, call, preload
from vlib import Harness, tlc, write_ndjson

UNIT = 1024   # of the specification's lengths, per px
UPEM = 1024


def exact_mm():
    """Lengths in mm that are a whole number of px however the two conversion factors are multiplied"""
    res = {}
    inv = f32(1 / f32(25.4))
    for p in range(0, 1300):
        start = struct.unpack(">I", struct.pack(">f", p * 25.4 / 96))[0]
        for k in range(-6, 7):
            if start + k < 0:
                continue
            x = struct.unpack(">f", struct.pack(">I", start + k))[0]
            if p == f32(x * f32(inv * 96)) == f32(f32(x * inv) * 96) == f32(f32(x / f32(25.4)) * 96) == f32(x * f32(96 / f32(25.4))) \
                    == f32(f32(x * 96) / f32(25.4)):
                res[p] = x
                break
    return res


MM = exact_mm()


def fonts():
    """Advances are multiples of an eighth of an em, for the numbers to be exact in binary and in thousandths"""
    small = {ord(x): 1 + k for k, x in enumerate("abc \u200b")}
    res = [fontgen.simple_font(small, [0, 128, 256, 384, 0, 0], upem=UPEM, ascender=768, descender=-256, name=b"Small")]
    wide = {}
    adv = [4]
    for chars, w in (("ilj.,'!:;|", 2), ("abcdefghknopqrstuvxyz-", 4), ("mwMW", 7), ("ABCDEFGHIJK", 5), (" \u00a0\t", 2), ("\u2003\u3000", 8),
                     ("\u200b\u00ad\u2060\ufeff", 0), ("\u4e00\u4e8c\u4e09\u3042\u3044\u30fc\u3001\u3002", 8), ("()[]{}\"\u201c\u201d\u2026%$/", 3),
                     ("0123456789", 4), ("\u05d0\u05d1\u0627\u0e01\u0e02", 4), ("\U0001f600\U00020000", 9)):
        for x in chars:
            wide[ord(x)] = len(adv)
            adv.append(w)
    res.append(fontgen.simple_font(wide, [128 * w for w in adv], upem=UPEM, ascender=832, descender=-192, name=b"Wide"))
    # the same with advances that are not round, for lines to be almost full or almost too long
    fine = [128 * w + (2 * (37 * k % 64) - 64 if w > 1 else 0) for k, w in enumerate(adv)]
    res.append(fontgen.simple_font(wide, fine, upem=UPEM, ascender=832, descender=-192, name=b"Fine"))
    return [LoadedFont(x) for x in res]


class Style:
    def __init__(self, font, width, height, margin, size, lh, justify):
        self.font, self.width, self.height, self.margin, self.size, self.lh, self.justify = font, width, height, margin, size, lh, justify

    def params(self):
        return "%d %s %s %s %s %s %d" % (self.font, hex32(MM[self.width]), hex32(MM[self.height]), hex32(MM[self.margin]),
                                         hex32(self.size), hex32(self.lh), self.justify)

    def __repr__(self):
        return "page %d x %d px, margins %d px, font %d, %g px, line height %g, %sjustified" % (
            self.width, self.height, self.margin, self.font, self.size, self.lh, "" if self.justify else "not ")


def exact(x):
    v = x * UNIT
    if v != int(v):
        raise vlib.ToolError("not a whole number of units: %r" % x)
    return int(v)


def segments(font, text, breaks, size):
    data = text.encode()
    segs, start = [], 0
    b = [int(x) for x in breaks.split()]
    for end, hard in zip(b[::2], b[1::2]):
        s = data[start:end].decode().rstrip("\n")
        start = end
        g, w = [], 0
        for ch in s:
            gid = font.r.map.get(ord(ch), 0)
            g.append([gid, w])
            w += exact(font.r.adv[gid] / UPEM * size)
        segs.append(dict(w=w, hard=bool(hard), g=g))
    return segs


def characters(segs):
    """The same text, with one segment for each character"""
    res = []
    for s in segs:
        if len(s["g"]) <= 1:
            res.append(s)
        for k, (gid, off) in enumerate(s["g"] if len(s["g"]) > 1 else []):
            last = k == len(s["g"]) - 1
            res.append(dict(w=(s["w"] if last else s["g"][k + 1][1]) - off, hard=s["hard"] and last, g=[[gid, 0]]))
    return res


def page_index(font, style, segs, data):
    """The recorded glyphs"""
    pdf = pdfread.read(data)
    res = []
    for n, p in enumerate(pdf.pages):
        for i in p.items:
            if i.kind != "text":
                raise pdfread.BadPdf("something else than text")
            x = 0.0
            for g in i.glyphs:
                res.append(dict(p=n + 1, x=round((i.x + x) * UNIT), y=round(i.y * UNIT), g=g))
                x += font.r.adv[g] / UPEM * i.size
    return len(pdf.pages), res


def ambiguous(segs):
    """A segment without glyphs that does not start a paragraph could be on either line"""
    return any(not s["g"] and k and not segs[k - 1]["hard"] for k, s in enumerate(segs))


CFG = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "%s"
  Aspect = "%s"
  Tolerance = 8
"""


def run(c, name, h, fs, jobs, aspect):
    """jobs: list of (style, texts)"""
    traces, sources = [], []
    for style, texts in jobs:
        font = fs[style.font]
        bparts = call(c, h, "breaks", *texts, what=name)
        parts = call(c, h, "plain", style.params(), *texts, what="%s\n%r" % (style, texts[:3]))
        base = (style.lh - 1) / 2 * style.size + font.r.ascender / UPEM * style.size
        for text, (_, br), (tag, data) in zip(texts, bparts, parts):
            what = "%s\n%r" % (style, text)
            if tag != "B":
                c.violation("%s\non %s" % (data.decode(), what), dict(input=what))
            segs = segments(font, text, br.decode(), style.size)
            if ambiguous(segs):
                c.cov["skipped_ambiguous"] = c.cov.get("skipped_ambiguous", 0) + 1
                continue
            try:
                pages, glyphs = page_index(font, style, segs, data)
            except (pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError) as e:
                c.violation("bad PDF: %s %s\non %s" % (type(e).__name__, e, what), dict(input=what))
            if aspect == "pages":
                segs = characters(segs)
            doc = dict(segs=segs, avail=exact(style.width - 2 * style.margin), minX=exact(style.margin), minY=exact(style.margin),
                       maxY=exact(style.height - style.margin), lh=exact(style.lh * style.size), base=exact(base), justify=style.justify)
            traces.append(dict(doc=doc, glyphs=glyphs, pages=pages))
            sources.append(what)
            c.cov["glyphs"] = c.cov.get("glyphs", 0) + len(glyphs)
            c.cov["pages"] = c.cov.get("pages", 0) + pages
    path = "%s/%s.ndjson" % (c.work, name.replace(" ", "-"))
    write_ndjson(path, traces)
    res = tlc("PlainTextTrace", CFG % (path, aspect), c.work, timeout=880, heap="12g", coverage=len(traces) < 3000)
    if not res.ok:
        st = vlib.last_state(res.out)
        if "t" not in st:
            raise vlib.ToolError("PlainTextTrace: " + res.out[-3000:])
        t = int(st["t"]) - 1
        at = {k: st[k] for k in ("i", "from", "width", "page", "y", "l")}
        l = int(at["l"])
        seg = traces[t]["doc"]["segs"]
        c.violation("%s: the layout is not one that the specification allows; when it was filling a line with %s\n"
                    "recorded from there: %s\nsegments from there: %s\ninput: %s" % (
                        name, at, traces[t]["glyphs"][l - 1:l + 11], seg[int(at["from"]) - 1:int(at["i"]) + 1], sources[t][:1500]),
                    dict(source=sources[t], trace=traces[t], state=at))
    c.add_tlc(res, name)
    c.cov["traces_validated_against_impl"] += len(traces)
    c.sample(sources[-1])


MC = """SPECIFICATION Spec
CONSTANTS
  MaxSegs = %d
  MaxW = %d
  Avails = {%s}
  Heights = {%s}
  MaxYs = {%s}
  Emit = %s
INVARIANT Conserved
INVARIANT Mandatory
INVARIANT Paginated
INVARIANT Greedy
INVARIANT Justified
%s
"""


def design(c):
    """The specification keeps the promises on everything small; the same inputs are replayed in the real code"""
    res = tlc("PlainTextMC", MC % (c.n(3, 4), 3, "0, 1, 2, 4, 5, 7", "0, 1, 2", "0, 1, 2, 4", "FALSE", ""), c.work,
              timeout=800, heap="12g", coverage=not c.thorough)
    if not res.ok:
        raise vlib.ToolError("PlainTextMC.tla violates its own invariants:\n" + res.out[-3000:])
    c.add_tlc(res, "PlainTextMC exhaustive")
    res = tlc("PlainTextMC", MC % (c.n(3, 4), 3, "1, 2, 4, 5", "1", c.n("1, 2", "1, 2, 3"), "TRUE", "INVARIANT Export\nPROPERTY Terminates"),
              c.work, timeout=800, heap="12g", coverage=False)
    if not res.ok:
        raise vlib.ToolError("PlainTextMC.tla violates its own properties:\n" + res.out[-3000:])
    c.add_tlc(res, "PlainTextMC termination")
    docs = {}
    for p in res.prints:
        d = json.loads(p)
        docs.setdefault((d["avail"], d["lh"], d["maxY"], d["justify"]), []).append(d["segs"])
    # In px of a font of 8 px, whose advances are 0 to 3 px and lines 8 px high
    jobs = []
    for (avail, lh, max_y, justify), texts in sorted(docs.items()):
        margin = next(m for m in sorted(MM, key=lambda m: (m < 3, m)) if avail + 2 * m in MM and 8 * max_y + 2 * m in MM)
        style = Style(0, avail + 2 * margin, 8 * max_y + 2 * margin, margin, 8, float(lh), justify)
        jobs.append((style, sorted({small_text(s, c.rng) for s in texts})))
    return jobs


def small_text(segs, rng):
    s = ""
    for k, x in enumerate(segs):
        if x["w"]:
            s += "abc"[x["w"] - 1]
        if not x["hard"]:
            s += " " if x["w"] else "\u200b"
        elif k < len(segs) - 1 or not x["w"]:
            s += "\n"
    return s


WORDS = ("a", "in", "will", "mm", "hello", "e-mail", "well-known", "MW", "K", "12,345.67", "(x)", "\u4e00\u4e8c\u4e09", "\u3042\u3001\u3044\u3002", "\U0001f600",
         "it's", "\u201cq\u201d", "x\u00a0y", "so\u00adft", "a\u200bb", "\u05d0\u05d1", "1/2", "a--b", "\u2026", "[1]", "100%", "\ufeff", "zz\u2060z", "é", "x" * 40)


def random_text(rng, n):
    seps = rng.choice([[" "], [" ", " ", " ", "\n"], [" ", "  ", "\t", "\n", "\n\n", "\r\n", "\u2003", ""], [" ", "", "\u200b", "\u3000", "-"],
                       ["\n"], [" ", "\u2028", "\u2029", "\x0b", "\x0c", "\r", "\u0085"]])
    return "".join(rng.choice(WORDS) + rng.choice(seps) for _ in range(n)) + rng.choice(["", "", "\n", " ", "\n\n", " \n"])


def random_style(rng, fs):
    size = rng.choice([8, 8, 16, 12, 10, 4, 0.5, 24, 0])
    if rng.random() < 0.5:
        lh = rng.choice([1, 1.25, 1.5, 2, 0.5, 0, 3, 1.125])
    else:
        lh = rng.randrange(8, 40) / 16
    while True:
        margin = rng.choice(sorted(MM)[:90]) if rng.random() < 0.9 else 0
        # often a whole number of lines high
        avail = rng.choice([rng.randrange(1, 40), rng.randrange(40, 300), rng.randrange(100, 900), 0, 1])
        height = int(rng.randrange(0, 12) * max(1, lh * size)) if rng.random() < 0.6 else rng.randrange(0, 600)
        if avail + 2 * margin in MM and height + 2 * margin in MM:
            return Style(rng.choice([1, 2]), avail + 2 * margin, height + 2 * margin, margin, size, lh, rng.random() < 0.6)


def tight(c, h, fs, rng, n):
    """Texts some line of which is as wide as the page, or a little more or less"""
    jobs = []
    while len(jobs) < n:
        style = random_style(rng, fs)
        if not style.size:
            continue
        style.font = 2
        text = random_text(rng, rng.choice([4, 8, 30]))
        breaks = call(c, h, "breaks", text, what=text)[0][1].decode()
        segs = segments(fs[2], text, breaks, style.size)
        # The text from segment k on, with its first few segments filling the first line
        k = rng.randrange(len(segs))
        start = int(breaks.split()[2 * k - 2]) if k else 0
        w = sum(s["w"] for s in segs[k:k + rng.choice([2, 3, 4, 6])]) / UNIT
        avail = max(0, rng.choice([int(w), int(w), -int(-w // 1), int(w) + 1]))
        if avail + 2 * style.margin in MM:
            style.width = avail + 2 * style.margin
            style.justify = rng.random() < 0.8
            jobs.append((style, [text.encode()[start:].decode()]))
    return jobs


def check(c, aspect):
    fs = fonts()
    h = Harness(vlib.build(), preload=preload(fs), timeout=120)
    run(c, "all small texts", h, fs, design(c), aspect)
    rng = c.rng
    jobs = [(random_style(rng, fs), [random_text(rng, rng.choice([0, 1, 2, 5, 20, 60])) for _ in range(5)]) for _ in range(c.n(140, 3000))]
    run(c, "random texts", h, fs, jobs, aspect)
    run(c, "tight lines", h, fs, tight(c, h, fs, rng, c.n(400, 6000)), aspect)
    jobs = [(random_style(rng, fs), [random_text(rng, rng.choice([300, 900]))]) for _ in range(c.n(4, 60))]
    run(c, "long texts", h, fs, jobs, aspect)
    h.close()
    c.assumptions.append("Where the text allows and demands a line break is what the crate xi-unicode 0.1.0 says, which the code under test asks.")
    c.assumptions.append("Sizes are chosen such that every length is exact in single precision; other sizes only differ by rounding.")


def C22(c):
    check(c, "pages")


def C23(c):
    check(c, "lines")
