"""C17 to C21: the PDF API (victor::pdf)."""
import json, os, struct
from decimal import Decimal
import vlib, pdfread, fontgen
from vlib import Harness, tlc, write_ndjson

VERA = os.path.join(vlib.REPO, "victor/fonts/vera/")


def f32(x):
    return struct.unpack(">f", struct.pack(">f", x))[0]


def hex32(x):
    return struct.pack(">f", x).hex()


# ------------------------------------------------------------------ fonts

class LoadedFont:
    bad = False   # parsed and shaped with, but not embedded

    def __init__(self, data):
        self.data = data
        r = fontgen.Reader(data)
        self.r = r
        self.pairs = sorted(r.map.items())

    def record(self):
        return dict(map=[[c, g] for c, g in self.pairs], adv=self.r.adv, upem=self.r.upem,
                    bad=self.bad, count=self.r.glyph_count, size=len(self.data), metrics=self.r.metrics)


def standard_fonts():
    fonts = [LoadedFont(open(VERA + n, "rb").read()) for n in ("Vera.ttf", "VeraMono.ttf")]
    # Beyond the BMP, more than 256 glyphs, more than 100 and exactly 100 entries
    m = {}
    for k in range(150):
        m[0x20 + k] = k + 1
    for k in range(160):
        m[0x1F300 + k] = 300 - k
    m[0xFFFD] = 310
    m[0x10FFFF] = 311
    fonts.append(LoadedFont(fontgen.simple_font(m, [(37 * k) % 1500 for k in range(320)], name=b"Beyond-BMP")))
    m = {0x41 + k: 1 + k for k in range(100)}
    fonts.append(LoadedFont(fontgen.simple_font(m, [500 + k for k in range(40)], glyph_count=120, fmt=4, upem=2048,
                                                names=[(0, 3, 6, b"\0X"), (1, 0, 4, b"Not this"), (3, 0, 6, b"\0S"),
                                                       (3, 1, 1, b"\0Y"), (3, 1, 6, "Ex\u00e9ctly100".encode("utf-16-be")),
                                                       (3, 1, 6, b"\0Z")], bbox=(-32768, -32767, 32767, 32766),
                                                ascender=32767, descender=-32768)))
    m = {0x41: 0x100, 0x42: 0x0FF, 0x43: 0x1234, 0x44: 0xFFFF, 0x45: 0xFF00, 0x46: 0x7FFF, 0x47: 0x8000, 0x48: 0x0A0D,
         0x49: 0x2829, 0x4A: 0x5C5C}
    fonts.append(LoadedFont(fontgen.simple_font(m, [600, 1000], glyph_count=3, name=b"Sparse Name#(%)")))
    # exactly two blocks of a hundred
    m = {0x100 + k: 1 + k % 97 for k in range(200)}
    fonts.append(LoadedFont(fontgen.simple_font(m, [250 + k for k in range(98)], upem=1024, names=[(3, 1, 6, b"\0N")],
                                                bbox=(100, 7, 1024, 1023), ascender=1025, descender=0)))
    # character maps with subtables to choose from: the later, full one counts
    small = fontgen.table_cmap4([(0x41, 0x42, 0, None), (0xFFFF, 0xFFFF, 1, None)])
    full = fontgen.table_cmap12([(0x41, 0x44, 2), (0x20000, 0x20003, 6)])
    fonts.append(LoadedFont(fontgen.font(fontgen.cmap_table([(0, 3, small), (1, 0, small), (3, 1, small), (3, 10, full)]),
                                         [100 * k for k in range(12)], name=b"Two")))
    # advances of many ems
    m = {0x41 + k: 1 + k for k in range(40)}
    fonts.append(LoadedFont(fontgen.simple_font(m, [32, 500, 520, 524, 525, 526, 1048, 1049, 2000, 4096, 8191, 32767, 32768, 65535]
                                                + [97 * k for k in range(30)], upem=16, name=b"Wide",
                                                bbox=(-600, -1500, 8191, 2047), ascender=1000, descender=-700)))
    # different fonts of the same name, one of them with the same characters and glyphs
    fonts.append(LoadedFont(fontgen.simple_font(m, [300 + k for k in range(44)], upem=1024, name=b"N")))
    fonts.append(LoadedFont(fontgen.simple_font(m, [301 + k for k in range(44)], upem=1024, name=b"N")))
    return fonts


def failing_fonts():
    """Fonts that are fine until they are embedded: the character map, or the advances, end before their time"""
    good = [(0x41, 0x44, 1 - 0x41, None)]
    fonts = []
    for segs in (good + [(0x3000, 0x3004, 0, 30000)], good):
        font = lambda segs: fontgen.font(fontgen.cmap_table([(3, 1, fontgen.table_cmap4(segs + [(0xFFFF, 0xFFFF, 1, None)]))]), [500, 501, 502, 503, 504], name=b"Failing")
        f = LoadedFont(font(good))
        data = bytearray(font(segs))
        if segs is good:
            at = {t: f.r.tables[t][0] for t in ("hhea", "maxp")}
            data[at["hhea"] + 34:at["hhea"] + 36] = struct.pack(">H", 5000)
            data[at["maxp"] + 4:at["maxp"] + 6] = struct.pack(">H", 5000)
        f.data, f.bad = bytes(data), True
        fonts.append(f)
    return fonts


SAME_NAME = [5, 8, 9]


def preload(fonts):
    return [("font", [str(k).encode(), f.data]) for k, f in enumerate(fonts)]


# ------------------------------------------------------------------ scripts and observations

class Script:
    """A history of API calls: as events for the specification, and as a script for the harness."""

    def __init__(self):
        self.ev, self.lines, self.raw = [], [], []

    def page(self, w, h):
        w, h = f32(w), f32(h)
        self.ev.append(dict(op="page", w=round(w * 64), h=round(h * 64)))
        self.lines.append("page %s %s" % (hex32(w), hex32(h)))
        self.raw.append(("page", w, h))

    def color(self, r, g, b, a):
        c = [f32(x) for x in (r, g, b)]
        a = f32(a)
        self.ev.append(dict(op="color", c=[round(x * 1e6) for x in c], a=round(max(-1, min(2, a)) * 1048560)))
        self.lines.append("color " + " ".join(hex32(x) for x in c + [a]))
        self.raw.append(("color", *c, a))

    def rect(self, *n):
        n = [f32(x) for x in n]
        self.ev.append(dict(op="rect", n=[round(x * 64) for x in n]))
        self.lines.append("rect " + " ".join(hex32(x) for x in n))
        self.raw.append(("rect", *n))

    def text(self, font, size, x, y, text):
        size, x, y = f32(size), f32(x), f32(y)
        self.ev.append(dict(op="text", font=font + 1, n=[round(v * 64) for v in (x, y, size)],
                            chars=[ord(c) for c in text]))
        self.lines.append("text %d %s %s %s %s" % (font, hex32(size), hex32(x), hex32(y), text.encode().hex()))
        self.raw.append(("text", font, size, x, y, text))

    def built(self, rng, font, size, x, y, chars):
        """A text whose segment is built in steps, with ways taken back"""
        size, x, y = f32(size), f32(x), f32(y)
        steps, words, saved = [], [], 0
        some = lambda n: [rng.choice(chars) for _ in range(rng.randrange(n))]
        for _ in range(rng.choice([1, 2, 3, 5, 8, 13])):
            k = rng.choice("aacsrrk")
            if k == "r" and not saved:
                k = "s"
            if k == "a" or k == "c":
                t = some(5) if k == "a" else [rng.choice(chars)]
                steps.append(dict(k=k, t=t))
                words.append(k + "".join(map(chr, t)).encode().hex())
            elif k == "r":
                saved = rng.randint(1, saved)
                steps.append(dict(k=k, n=saved))
                words.append("r%d" % (saved - 1))
            else:
                saved += k == "s"
                steps.append(dict(k=k))
                words.append(k)
        self.ev.append(dict(op="text", font=font + 1, n=[round(v * 64) for v in (x, y, size)], steps=steps))
        self.lines.append("text %d %s %s %s  %s" % (font, hex32(size), hex32(x), hex32(y), " ".join(words)))

    def write(self):
        """Write the document as it is now; the history may go on"""
        self.ev.append(dict(op="doc"))
        self.lines.append("write")

    def finish(self, parts, fonts):
        """The events with what was found in each file written, the last one included, and how often a text was refused before"""
        todo, events, pdf, self.seen, failed = [], [], None, [], 0
        for tag, p in parts:
            failed += tag == "L" and p.startswith(b"error show")
            if tag == "B":
                todo.append((p, failed))
        todo = iter(todo)
        for e in self.ev + [dict(op="doc")]:
            if e["op"] == "doc":
                data, failed = next(todo)
                e, pdf = doc_event(data, fonts)
                e["failed"] = failed
                self.seen.append(pdf)
            events.append(e)
        return events, pdf

    def source(self, *more):
        return "\n".join(self.lines + list(more))


def scaled(x, scale=64):
    v = x * scale
    if not (abs(v) < 2e9):
        return 2000000000
    return round(v)


def clamped(x):
    return round(max(-1e9, min(1e9, x)))


def doc_event(data, fonts, full_uni=True):
    """What an independent reader finds in the file, as the final event of the trace"""
    try:
        pdf = pdfread.read(data)
        res = dict(op="doc", error="", pages=[], fonts=[], files=0)
        index = {}
        for p in pdf.pages:
            items = []
            for i in p.items:
                o = dict(k=i.kind, c=[scaled(x, 1e6) for x in i.color], a=scaled(i.alpha, 1048560))
                if i.kind == "rect":
                    o["n"] = [scaled(x) for x in (i.x, i.y, i.w, i.h)]
                else:
                    if not i.ok:
                        raise pdfread.BadPdf("skewed text matrix")
                    o["n"] = [scaled(x) for x in (i.x, i.y, i.size)]
                    o["g"] = i.glyphs
                    key = i.font[0] if isinstance(i.font, pdfread.Ref) else id(i.font)
                    if key not in index:
                        index[key] = len(index) + 1
                        info = pdfread.font_info(pdf, i.font)
                        which = [k for k, f in enumerate(fonts) if f.data == info["file"]]
                        n = max(info["widths"]) + 1 if info["widths"] else 0
                        widths = [int(info["widths"].get(g, info["default_width"])) for g in range(n)]
                        name = b""
                        if which:
                            off, _ = fonts[which[0]].r.tables["name"]
                            name = ps_name(fonts[which[0]].data, off)
                        uni = info["cmap"]["entries"]
                        bad = [t for _, t in uni if len(t) != 1]
                        res["fonts"].append(dict(
                            file=which[0] + 1 if which else 0, widths=widths, length1=info["length1"],
                            metrics=[clamped(x) for x in info["metrics"]],
                            nameok=all(x == name for x in info["names"]) and info["sysinfo"] == [b"Adobe", b"Identity"] and not bad,
                            uni=[[g, ord(t)] for g, t in uni if len(t) == 1], blocks=info["cmap"]["blocks"]))
                    o["font"] = index[key]
                items.append(o)
            res["pages"].append(dict(w=scaled(p.width), h=scaled(p.height), items=items))
        # every embedded font program of the file
        bytes_of = {f.data for f in fonts if not f.bad}
        res["files"] = sum(1 for v, s in pdf.objects.values() if s is not None and s in bytes_of)
        return res, pdf
    except (pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError) as e:
        return dict(op="doc", error="%s: %s" % (type(e).__name__, e), pages=[], fonts=[], files=0), None


def ps_name(data, off):
    n, so = struct.unpack(">HH", data[off + 2:off + 6])
    for k in range(n):
        p, e, _, i, ln, o = struct.unpack(">HHHHHH", data[off + 6 + 12 * k:off + 18 + 12 * k])
        if i == 6 and p == 1:
            return data[off + so + o:off + so + o + ln].decode("utf8", "replace").encode()
        if i == 6 and p == 3 and e == 1:
            return data[off + so + o:off + so + o + ln].decode("utf-16-be").encode()
    return b""


def call(c, h, mode, *payloads, what=""):
    """Run the real code; a panic, abort or hang is a violation"""
    try:
        parts = h.call(mode, *payloads)
    except Harness.Died as e:
        c.violation("the code under test did not answer: %s\non %s" % (e, what[:1500]), dict(input=what))
    for tag, payload in parts:
        if tag == "P":
            c.violation("panic: %s\non %s" % (payload.decode("utf8", "replace"), what[:1500]), dict(input=what))
    return parts


def judge(c, name, module, cfg, traces, sources, workers=8, timeout=700, why=None):
    """Validate traces recorded from the real code against a trace specification"""
    path = os.path.join(c.work, name + ".ndjson")
    write_ndjson(path, traces)
    res = tlc(module, cfg.replace("@TRACE@", path), c.work, workers=workers, timeout=timeout)
    c.add_tlc(res, name)
    if not res.ok:
        st = vlib.last_state(res.out)
        try:
            t = int(st.get("t", "1"))
        except ValueError:
            t = 1
        detail = "the specification %s rejects the behaviour of the real code after event %s of trace %d; state: %s\ninput:\n%s" % (
            module, int(st.get("l", "1")) - 1 if st.get("l", "1").isdigit() else "?", t,
            {k: v[:600] for k, v in st.items()}, str(sources[t - 1])[:2500])
        if why:
            detail = why(traces[t - 1], st) + "\n" + detail
        c.violation(detail, dict(source=sources[t - 1], trace=traces[t - 1], state=st))
    c.cov["traces_validated_against_impl"] += len(traces)


def abstract_histories(c, colors, max_ops, max_pages, emit):
    """Explore PdfDoc.tla exhaustively; returns its complete histories"""
    cfg = """SPECIFICATION Spec
CONSTANTS
  NColors = %d
  MaxOps = %d
  MaxPages = %d
  Emit = %s
INVARIANT Faithful
INVARIANT AlphasDistinct
INVARIANT RememberedState
INVARIANT Export
CHECK_DEADLOCK FALSE
""" % (colors, max_ops, max_pages, "TRUE" if emit else "FALSE")
    res = tlc("PdfDoc", cfg, c.work, timeout=700)
    if not res.ok:
        raise vlib.ToolError("PdfDoc.tla violates its own invariants:\n" + res.out[-3000:])
    c.add_tlc(res, "PdfDoc exhaustive, %d calls" % max_ops)
    return [json.loads(p) for p in res.prints]


COLOURS = {0: (0, 0, 0), 1: (1, 0, 0), 2: (0.2, 0.4, 0.6)}


def random_script(rng, fonts, size, text=True, writes=True):
    s = Script()
    alphas = [1, 1, 0.5, 0, 1.5, -0.25, 0.25, 0.75] + [rng.random() for _ in range(3)]
    cols = [(0, 0, 0), (1, 0, 0), (0, 0, 1)] + [tuple(rng.choice([0, 1, 0.5, rng.random()]) for _ in range(3)) for _ in range(3)]
    num = lambda: rng.choice([0, 1, 10, -3.5, 0.25]) if rng.random() < 0.3 else rng.randint(-20000, 40000) / 64
    s.page(rng.randint(0, 60000) / 64, rng.randint(0, 60000) / 64)
    for _ in range(size):
        r = rng.random()
        if r < 0.15:
            for _ in range(rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 2]) if writes and size <= 40 else 0):
                s.write()
            s.page(rng.randint(0, 60000) / 64, rng.randint(0, 60000) / 64)
        elif r < 0.5:
            s.color(*rng.choice(cols), rng.choice(alphas))
        elif r < 0.75 or not text:
            s.rect(num(), num(), num(), num())
        else:
            k = rng.randrange(len(fonts))
            chars = [ch for ch, _ in fonts[k].pairs]
            t = "".join(chr(rng.choice(chars)) if rng.random() < 0.9 else rng.choice("\u0001\u4e00é😀")
                        for _ in range(rng.choice([0, 1, 2, 5, 12])))
            t = "".join(ch for ch in t if not 0xD800 <= ord(ch) < 0xE000)
            s.text(k, rng.randint(1, 6400) / 64, num(), num(), t)
    return s


TRACE_CFG = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "@TRACE@"
  FontFile = "%s"
  Aspects = {%s}
INVARIANT Conforms
"""


def trace_cfg(c, fonts, aspect):
    path = os.path.join(c.work, "font-tables.ndjson")
    write_ndjson(path, [f.record() for f in fonts])
    return TRACE_CFG % (path, '"%s"' % aspect)


def run_scripts(c, h, scripts, fonts):
    traces, pdfs, datas = [], [], []
    for s in scripts:
        src = s.source("write")
        parts = call(c, h, "pdf", src, what=src)
        lines = [p.decode() for tag, p in parts if tag == "L"]
        blobs = [p for tag, p in parts if tag == "B"]
        ev, pdf = s.finish(parts, fonts)
        lines = [x for x in lines if not x.startswith("error show")]
        if lines:
            ev[-1]["error"] = lines[0]
        traces.append(dict(ev=ev))
        pdfs.append(pdf)
        datas.append(blobs[-1])
    return traces, pdfs, datas


# ------------------------------------------------------------------ C17

def C17(c):
    fonts = standard_fonts() + failing_fonts()
    # files of many digits: fonts with a table that nobody reads
    large = len(fonts)
    for n in [9999000, 16777216] + c.n([], [99999500, 134217728]):
        fonts.append(LoadedFont(fontgen.simple_font({65: 1, 66: 2}, [500, 600], name=b"Large%d" % n, zzzz=bytes(n))))
    h = Harness(vlib.build(), preload=preload(fonts), timeout=120)
    writer_design(c)
    scripts = []
    s = Script()
    scripts.append(s)  # no page at all
    for n in list(range(1, 13)) + [30, 100, c.n(257, 1200)]:
        s = Script()
        for k in range(n):
            s.page(100 + k, 200 + 2 * k)
            for _ in range(k % 3):
                s.rect(k, k, 1, 1)
        scripts.append(s)
    for k in range(large, len(fonts)):
        for first in (False, True):
            s = Script()
            for i in range(4):
                s.page(100 + i, 50)
                s.rect(i, 1, 2, 3)
                s.color(1, 0, 0, i / 4)
                if i == (0 if first else 2):
                    s.text(k, 10, 1, 1, "AB")
                s.rect(i, 4, 5, 6)
            scripts.append(s)
    for n in range(c.n(150, 1500)):
        scripts.append(random_script(c.rng, fonts[:large], c.rng.choice([1, 3, 10, 30, 60])))
    # Sizes around every power of ten of the offsets, and a large file
    for size in [10 ** k for k in range(3, c.n(6, 8))]:
        for d in (-400, 0, 300):
            s = Script()
            s.page(10, 10)
            n = max(0, (size + d - 1200) // 12)
            for _ in range(n):
                s.rect(1, 2, 3, 4)
            s.page(20, 20)
            scripts.append(s)
    traces, files, origins = [], [], []
    for s in scripts:
        src = s.source("write")
        parts = call(c, h, "pdf", src, what=src)
        big = len(s.ev) > 3000
        ev, pdf = s.finish(parts, fonts)
        for e in ev:
            if e.get("error"):
                c.violation("the file is not a well-formed PDF: %s\nscript:\n%s" % (e["error"], src[:2000]),
                            dict(source=src[:100000], error=e["error"]))
        for one in s.seen:
            files.append(dict(ev=one.events))
            origins.append(src)
        if not big:
            traces.append(dict(ev=ev))
        else:
            # the same rectangle thousands of times: keep the trace short
            if [(i.x, i.y, i.w, i.h) for i in pdf.pages[0].items] != [(1, 2, 3, 4)] * (len(s.ev) - 2) or len(pdf.pages) != 2:
                c.violation("page content of a large file is wrong", dict(source=src[:1000]))
        # a page has its own content
    sources = [s.source("write") for s in scripts]
    judge(c, "file structure", "PdfFile",
          'SPECIFICATION Spec\nCONSTANT TraceFile = "@TRACE@"\nINVARIANT Ordered\n', files, origins)
    small = [s for s in sources if s.count("\n") <= 3000]
    judge(c, "pages", "PdfDocTrace", trace_cfg(c, fonts, "pages"), traces, small)
    c.cov["files"] = len(files)
    c.cov["objects"] = sum(1 for f in files for e in f["ev"] if e["e"] == "obj")
    c.sample(sources[20])
    h.close()


def writer_design(c):
    cfg = """SPECIFICATION Spec
CONSTANTS MaxChunks = %d MaxLen = 2 MaxInterrupts = 1 MaxAttempts = 2
INVARIANT SuccessMeansAll
INVARIANT OffsetsAreRight
INVARIANT NothingTwice
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % c.n(3, 4)
    res = tlc("PdfWriter", cfg, c.work, timeout=700)
    if not res.ok:
        raise vlib.ToolError("PdfWriter.tla violates its own properties:\n" + res.out[-3000:])
    c.add_tlc(res, "PdfWriter exhaustive")


# ------------------------------------------------------------------ C18

def C18(c):
    fonts = standard_fonts()[2:4]
    h = Harness(vlib.build(), preload=preload(fonts))
    histories = abstract_histories(c, 5, c.n(6, 7), 3, True)
    alpha_of = {65535: 1.0, 32768: 0.5, -100: -0.5, 99999: 1.5}
    if len(histories) > 20000:
        histories = c.rng.sample(sorted(histories, key=json.dumps), 20000)
    scripts = []
    for hist in histories:
        s = Script()
        k = 0
        for op in hist:
            if op[0] == "page":
                s.page(100, 100)
            elif op[0] == "color":
                s.color(*COLOURS[op[1]], alpha_of[op[2]])
            else:
                k += 1
                # rectangles and texts alternate: colour and opacity apply to both
                if (k + len(hist)) % 2:
                    s.rect(k, 2 * k, 3, 4)
                else:
                    s.text(0, 10, k, 2 * k, "ab")
        scripts.append(s)
    for n in range(c.n(250, 2500)):
        scripts.append(random_script(c.rng, fonts, c.rng.choice([4, 10, 25, 60])))
    # Colours and alphas that hardly differ, one after the other
    for delta in (1 / 255, 0.004, 1e-3, 1e-4, 1e-5):
        for channel in range(4):
            s = Script()
            s.page(50, 50)
            at = [c.rng.random() * .9 for _ in range(4)]
            for k in range(12):
                s.color(*at)
                s.rect(k, 1, 1, 1) if k % 3 else s.text(0, 10, k, 2, "ab")
                at[channel] += delta * c.rng.choice([1, 1, -1]) if channel < 3 else max(delta, 5e-5)
            scripts.append(s)
    # Many different alphas, each used on several pages, close to each other or not
    for n in range(c.n(10, 60)):
        s = Script()
        alphas = [k / 64 for k in range(65)] if n % 2 else [c.rng.random() for _ in range(80)]
        for _ in range(3):
            s.page(50, 50)
            c.rng.shuffle(alphas)
            for a in alphas:
                s.color(0, 0, 0, a)
                s.rect(1, 1, 1, 1)
        scripts.append(s)
    traces, _, _ = run_scripts(c, h, scripts, fonts)
    judge(c, "painting", "PdfDocTrace", trace_cfg(c, fonts, "paint"), traces, [s.source("write") for s in scripts])
    c.cov["histories_exhaustive"] = len(histories)
    c.sample(scripts[0].source())
    c.sample(scripts[-20].source())
    h.close()


# ------------------------------------------------------------------ C19

def C19(c):
    fonts = standard_fonts() + failing_fonts()
    h = Harness(vlib.build(), preload=preload(fonts))
    scripts = []
    # every font alone with all its characters
    for k, f in enumerate(fonts):
        s = Script()
        s.page(600, 800)
        chars = [ch for ch, _ in f.pairs if not 0xD800 <= ch < 0xE000]
        for i in range(0, len(chars), 50):
            s.text(k, 12, 10, 10 + i, "".join(map(chr, chars[i:i + 50])))
        scripts.append(s)
    # every order of first uses of up to three fonts over two pages
    import itertools
    small = [2, 3, 4, 5]
    for seq in itertools.product(small[:3], repeat=4):
        for cut in (1, 2, 4):
            s = Script()
            s.page(100, 100)
            for i, k in enumerate(seq):
                if i == cut:
                    s.page(100, 100)
                s.text(k, 8 + k, i, 2 * i, "AB" + "ACDEF"[i])
            scripts.append(s)
    # fonts that share a name, in every order
    for seq in itertools.product(SAME_NAME, repeat=3):
        s = Script()
        s.page(100, 100)
        for i, k in enumerate(seq):
            if i == 2:
                s.page(100, 100)
            s.text(k, 8 + k, i, 2 * i, chr(fonts[k].pairs[i][0]))
        scripts.append(s)
    # texts in fonts that cannot be embedded, again and again, between others
    for seq in itertools.product((3, len(fonts) - 1, len(fonts) - 2), repeat=4):
        s = Script()
        s.page(100, 100)
        for i, k in enumerate(seq):
            s.text(k, 8 + i, i, 2 * i, "AB" + "ABCD"[i])
            if i == 1:
                s.rect(1, 2, 3, 4)
                s.write()
                s.page(100, 100)
        scripts.append(s)
    for n in range(c.n(60, 800)):
        scripts.append(random_script(c.rng, fonts[2:] if n % 6 else fonts, c.rng.choice([5, 15, 40])))
    # segments built in steps
    for n in range(c.n(60, 1500)):
        s = Script()
        s.page(100, 100)
        for i in range(12):
            k = c.rng.randrange(2, len(fonts))
            chars = [ch for ch, _ in fonts[k].pairs if not 0xD800 <= ch < 0xE000][:300] + [0x4e00]
            s.built(c.rng, k, 8, i, 2 * i, chars)
        scripts.append(s)
    traces, _, _ = run_scripts(c, h, scripts, fonts)
    judge(c, "fonts", "PdfDocTrace", trace_cfg(c, fonts, "fonts"), traces, [s.source("write") for s in scripts])
    c.cov["fonts"] = len(fonts)
    c.sample(scripts[10].source())
    h.close()


# ------------------------------------------------------------------ C20

def number_record(raw, value, tol=7):
    d = Decimal(value)
    if 0 < abs(value) < 2.0 ** -126:
        # subnormal numbers have fewer digits
        tol = min(10 ** 8, max(tol, int(0.6 * 2.0 ** -149 / abs(value) * 1e8)))
    neg, digits, exp = d.as_tuple()
    ds = list(digits)
    while ds and ds[0] == 0:
        ds.pop(0)
    if not ds:
        return dict(k="number", raw=list(raw), neg=False, digits=[], expo=0, tol=tol, value=[])
    expo = len(ds) + exp - 1
    # round to 8 digits
    n = int("".join(map(str, ds[:8] + [0] * (8 - len(ds)))))
    if len(ds) > 8 and ds[8] >= 5:
        n += 1
    s = str(n)
    if len(s) > 8:
        s, expo = s[:8], expo + 1
    return dict(k="number", raw=list(raw), neg=bool(neg), digits=[int(x) for x in s], expo=expo, tol=tol, value=[])


def bytes_record(kind, raw, value):
    return dict(k=kind, raw=list(raw), value=list(value), neg=False, digits=[], expo=0, tol=0)


def interesting_floats(rng, n):
    vals = set()
    for e in range(0, 255):
        for m in (0, 1, 0x7FFFFF, 0x400000, 0x555555):
            vals.add(e << 23 | m)
    for k in range(-12, 20):
        for d in (-1, 0, 1):
            b = struct.unpack(">I", struct.pack(">f", 10.0 ** k))[0]
            vals.add(b + d)
    for k in list(range(0, 300)) + [600, 800, 999, 1000, 1001, 12345, 99999, 100000, 16777216, 16777215]:
        vals.add(struct.unpack(">I", struct.pack(">f", float(k)))[0])
        vals.add(struct.unpack(">I", struct.pack(">f", k / 64))[0])
        vals.add(struct.unpack(">I", struct.pack(">f", k / 10))[0])
        vals.add(struct.unpack(">I", struct.pack(">f", k / 255))[0])
    for _ in range(n):
        vals.add(rng.randrange(0, 0x7F800000))
    res = []
    for v in sorted(vals):
        v &= 0x7FFFFFFF
        if v < 0x7F800000:
            x = struct.unpack(">f", struct.pack(">I", v))[0]
            res += [x, -x]
    return res


def C20(c):
    fonts = standard_fonts()[2:]
    names = [bytes([b]) for b in range(0, 128)]
    names += [b"A" + bytes([b]) + b"Z" for b in range(0, 128)]
    names += [("é%cx" % ch).encode() for ch in range(0x80, 0x180, 3)] + ["😀#20".encode(), b"#", b"##41", b"#4", b"a b/c(d)e<f>g[h]i{j}k%l"]
    for _ in range(c.n(40, 400)):
        names.append("".join(chr(c.rng.choice([c.rng.randrange(0, 128), c.rng.randrange(0x80, 0xD000)])) for _ in range(c.rng.randrange(1, 12))).encode())
    name_fonts = [fontgen.simple_font({65: 1}, [500, 600], name=n) for n in names]
    name_fonts += [fontgen.sfnt(dict(
        cmap=fontgen.cmap_table([(3, 10, fontgen.table_cmap12([(65, 65, 1)]))]), head=fontgen.head_table(),
        hhea=fontgen.hhea_table(1), hmtx=fontgen.hmtx_table([500]), maxp=fontgen.maxp_table(2),
        name=fontgen.name_table([(3, 1, 6, bytes([0, b]))]))) for b in range(0, 256)]
    names += [chr(b).encode() for b in range(0, 256)]
    h = Harness(vlib.build(), preload=preload(fonts))
    traces, sources = [], []

    def add(rec, src):
        traces.append(rec)
        sources.append(src)

    vals = interesting_floats(c.rng, c.n(1500, 20000))
    c.rng.shuffle(vals)
    vals = [v for v in vals]
    # numbers: rectangles, colours, alphas, text size and origin, page size
    per = 240
    for i in range(0, len(vals) - per, per):
        v = vals[i:i + per]
        s = Script()
        s.raw = []
        s.page(100, 100)
        calls = []
        for k in range(0, per - 11, 12):
            col = [min(1.0, abs(x)) for x in v[k:k + 3]] if k % 24 else v[k:k + 3]
            s.lines.append("color " + " ".join(hex32(x) for x in col + [1.0]))
            s.lines.append("rect " + " ".join(hex32(x) for x in v[k + 3:k + 7]))
            s.lines.append("text 0 %s %s %s 41" % tuple(hex32(x) for x in v[k + 7:k + 10]))
            calls.append((col, v[k + 3:k + 7], v[k + 7:k + 10]))
        w, hh = v[0], v[1]
        s.lines.append("page %s %s" % (hex32(w), hex32(hh)))
        src = s.source("write")
        data = [p for t, p in call(c, h, "pdf", src, what=src) if t == "B"][-1]
        try:
            pdf = pdfread.read(data)
            items = pdf.pages[0].items
            if len(items) != 2 * len(calls):
                raise pdfread.BadPdf("wrong number of items")
        except pdfread.BadPdf as e:
            c.violation("not valid PDF syntax: %s\n%s" % (e, src[:1500]), dict(source=src, error=str(e)))

        def num(raw, x, what, tol=7):
            add(number_record(raw, x, tol), "%s = %r written as %r" % (what, x, raw))
        for (col, r, t), a, b in zip(calls, items[::2], items[1::2]):
            for x, y, raw in zip(r, (a.x, a.y, a.w, a.h), a.raw or [None] * 4):
                num(raw if raw is not None else plain(y), x, "rectangle")
            for x, y in zip(col, a.color):
                num(getattr(y, "raw", None) or plain(y), x, "colour")
            raw = b.raw or [plain(b.size), plain(-b.size), plain(b.x), plain(b.y)]
            num(raw[0], t[0], "font size")
            num(raw[1], -t[0], "font size")
            num(raw[2], t[1], "text origin")
            num(raw[3], t[2], "text origin")
        p = pdf.pages[1]
        num(plain(p.width), abs(w), "page width", 20)
        num(plain(p.height), abs(hh), "page height", 20)
    # alphas
    s = Script()
    s.page(10, 10)
    al = sorted({abs(v) for v in vals if abs(v) <= 1})
    al = [a for i, a in enumerate(al) if i % c.n(3, 1) == 0]
    seen = set()
    used = []
    for a in al:
        key = int(f32(a * 65535))
        if key in seen:
            continue  # rounded to the same state
        seen.add(key)
        used.append(a)
        s.lines.append("color 00000000 00000000 00000000 " + hex32(a))
        s.lines.append("rect " + " ".join([hex32(1)] * 4))
    src = s.source("write")
    data = [p for t, p in call(c, h, "pdf", src, what=src) if t == "B"][-1]
    try:
        pdf = pdfread.read(data)
        for a, i in zip(used, pdf.pages[0].items):
            add(number_record(plain(i.alpha), a), "alpha %r written as %r" % (a, i.alpha))
    except pdfread.BadPdf as e:
        c.violation("not valid PDF syntax: %s\n%s" % (e, src[:1500]), dict(source=src, error=str(e)))
    # names, all reachable bytes
    for name, data in zip(names, name_fonts):
        parts = call(c, h, "font", "20", data, b"A", what="font with the PostScript name %r" % name)
        blobs = [p for t, p in parts if t == "B"]
        if not blobs:
            c.violation("a font named %r is rejected: %r" % (name, parts), dict(name=name))
        try:
            pdf = pdfread.read(blobs[0])
        except pdfread.BadPdf as e:
            c.violation("not valid PDF syntax: %s, with a font named %r" % (e, name), dict(name=name, error=str(e)))
        found = [raw for kind, raw, v in pdf.tokens if kind == "name"]
        f = pdf.pages[0].items[0].font
        fd = pdf.get(f)
        base = fd[b"BaseFont"]
        raws = [raw for kind, raw, v in pdf.tokens if kind == "name" and v == bytes(base)]
        add(bytes_record("name", raws[0] if raws else b"", name), "name %r written as %r" % (name, raws[:1]))
    # strings of glyph codes
    m = {ch: g for ch, g in fonts[2].pairs}
    for chars in [[a, b] for a in m for b in m]:
        src = "page %s %s\ntext 2 %s %s %s %s\nwrite" % (hex32(1), hex32(1), hex32(1), hex32(1), hex32(1), "".join(map(chr, chars)).encode().hex())
        data = [p for t, p in call(c, h, "pdf", src, what=src) if t == "B"][-1]
        try:
            pdf = pdfread.read(data)
        except pdfread.BadPdf as e:
            c.violation("not valid PDF syntax: %s\n%s" % (e, src), dict(source=src))
        want = b"".join(struct.pack(">H", m[x]) for x in chars)
        raws = [(k, raw) for k, raw, v in pdf.tokens if k in ("hex", "string") and len(v) == 4]
        k, raw = raws[-1] if raws else ("hex", b"")
        add(bytes_record(k, raw, want), "glyph codes %r written as %r" % (want, raw))
    # every pair of bytes in names and strings, through the hook
    interesting = [0, 9, 10, 12, 13, 32, 35, 37, 40, 41, 47, 48, 60, 62, 65, 91, 92, 93, 110, 114, 123, 125, 126, 127, 128, 200, 255]
    inputs = [bytes([b]) for b in range(256)] + [bytes([a, b]) for a in interesting for b in interesting] + [b""]
    inputs += [bytes(c.rng.choice(interesting) for _ in range(c.rng.randrange(3, 9))) for _ in range(c.n(200, 3000))]
    for kind in ("name", "string", "hex"):
        parts = call(c, h, "serialize", kind, *inputs, what="serialize " + kind)
        if parts[0][0] == "L":
            c.assumptions.append("the serialization hook does not build: strings limited to those the public API reaches")
            break
        for value, (_, raw) in zip(inputs, parts):
            if kind == "name":
                if raw[:1] != b"/":
                    c.violation("name %r written as %r" % (value, raw), dict(value=value, raw=raw))
                raw = raw[1:]
            k = kind
            if kind != "name":
                k = "hex" if raw[:1] == b"<" else "string"
            add(bytes_record(k, raw, value), "%s %r written as %r" % (kind, value, raw))
    # Infinities and NaN have no syntax: whatever is written must be numbers
    for bad in ("7fc00000", "7f800000", "ff800000"):
        src = "page %s %s\nrect %s %s %s %s\ncolor %s %s %s %s\ntext 0 %s %s %s 41\nwrite" % tuple([bad] * 13)
        data = [p for t, p in call(c, h, "pdf", src, what=src) if t == "B"][-1]
        try:
            pdfread.read(data)
        except pdfread.BadPdf as e:
            c.violation("not valid PDF syntax: %s\n%s" % (e, src), dict(source=src))
    judge(c, "tokens", "PdfLex", 'SPECIFICATION Spec\nCONSTANT TraceFile = "@TRACE@"\nINVARIANT Value\n', traces, sources)
    for k in (0, len(traces) // 2, -1):
        c.sample(sources[k])
    c.cov["numbers"] = sum(1 for t in traces if t["k"] == "number")
    h.close()


def plain(x):
    """A computed number, as exact decimal digits"""
    return format(Decimal(float(x)), "f").encode()


# ------------------------------------------------------------------ C21

def C21(c):
    fonts = standard_fonts()[4:5]
    h = Harness(vlib.build(), preload=preload(fonts))
    writer_design(c)
    docs = []
    s = Script()
    docs.append(s)
    s = Script()
    s.page(100, 100)
    s.color(1, 0, 0, 0.5)
    s.rect(1, 2, 3, 4)
    docs.append(s)
    s = Script()
    s.page(100, 100)
    s.text(0, 10, 5, 5, "ABC")
    s.page(50, 50)
    docs.append(s)
    for _ in range(c.n(0, 4)):
        docs.append(random_script(c.rng, fonts, 12, writes=False))
    # a document larger than the buffers of files
    big = Script()
    for k in range(40):
        big.page(100, 100)
        for j in range(30):
            big.rect(k, j, 1, 1)
    traces, sources = [], []

    def attempts(s, kind, lo, hi, step):
        src = s.source("faults %s %d %d %d" % (kind, lo, hi, step))
        parts = call(c, h, "pdf", src, what=src)
        lines = [p.decode() for t, p in parts if t == "L"]
        total = [int(x.split()[1]) for x in lines if x.startswith("len ")][0]
        same = "after true" in lines
        for x in lines:
            if not x.startswith("attempt "):
                continue
            w = x.split()
            ev = [dict(e=z[0], n=int(z[1:])) for z in w[6:]]
            if len(ev) > 400:
                # merge runs of short writes and interruptions
                n = sum(z["n"] for z in ev if z["e"] in "as")
                ev = [dict(e="i", n=0), dict(e="a", n=n)] + [z for z in ev if z["e"] in "ez"]
            ev.append(dict(e=w[3], good=w[4] == "true", n=0))
            ev.append(dict(e="after", same=same, n=0))
            traces.append(dict(len=total, ev=ev))
            sources.append(src + "\n" + x[:400])
        return total

    for s in docs:
        for kind in ("error", "full", "once", "zero"):
            attempts(s, kind, 0, 10 ** 9, 1)
        attempts(s, "errcall", 0, c.n(120, 400), 1)
        attempts(s, "zerocall", 0, c.n(120, 400), 1)
        attempts(s, "interrupt", 0, c.n(120, 400), 1)
        attempts(s, "intshort", 0, 3, 1)
        attempts(s, "short", 0, 12, 1)
        attempts(s, "random", 1, c.n(60, 600), 1)
        attempts(s, "flush", 0, 0, 1)
        attempts(s, "none", 0, 0, 1)
    n = attempts(big, "error", 0, 10 ** 9, c.n(997, 101))
    for p in range(0, n + 1, 4096):
        attempts(big, "full", max(p - 1, 0), p + 1, 1)
    # files: every limit for a small one, around the buffer sizes for the big one
    def to_file(s, path, limit, what):
        src = s.source("file %s %d" % (path.encode().hex(), limit))
        parts = call(c, h, "pdf", src, what=src)
        line = [p.decode() for t, p in parts if t == "L"][-1]
        w = dict(x.split("=") for x in line.split()[2:])
        acc, total = int(w["accepted"]), int(w["len"])
        failing = what != "ok" and (limit < 0 or limit < total)
        ev = []
        if line.split()[1] == "ok" and path == "/dev/full":
            acc = 0
        if acc:
            ev.append(dict(e="a", n=acc))
        if failing:
            ev.append(dict(e="e", n=0))
        ev.append(dict(e=line.split()[1], good=w["prefix"] == "True" or w["prefix"] == "true", n=0))
        ev.append(dict(e="after", same=True, n=0))
        traces.append(dict(len=total, ev=ev))
        sources.append("write_to_pdf_file(%s), size limit %d: %s" % (path, limit, line))
        return total

    out = os.path.join(c.work, "out.pdf")
    total = to_file(docs[1], out, -1, "ok")
    for limit in range(0, total + 3, c.n(7, 1)):
        to_file(docs[1], out, limit, "limit")
    for limit in (0, 1, total - 1, total, total + 1):
        to_file(docs[1], out, limit, "limit")
    total = to_file(big, out, -1, "ok")
    for limit in sorted({x + d for x in range(0, total, c.n(8192, 2048)) for d in (-1, 0, 1)} | {total - 1, total, total + 1}):
        if limit >= 0:
            to_file(big, out, limit, "limit")
    # over an existing, longer file: nothing of it may be left
    with open(out, "wb") as f:
        f.write(b"x" * 100000)
    to_file(docs[1], out, -1, "ok")
    if os.path.exists("/dev/full"):
        to_file(docs[1], "/dev/full", -1, "full")
        to_file(big, "/dev/full", -1, "full")
    to_file(docs[1], os.path.join(c.work, "missing/out.pdf"), -1, "missing")
    to_file(docs[1], c.work, -1, "directory")
    os.unlink(out)
    judge(c, "attempts", "PdfWriterTrace", 'SPECIFICATION Spec\nCONSTANT TraceFile = "@TRACE@"\nINVARIANT Bounded\n',
          traces, sources)
    c.cov["attempts"] = len(traces)
    for k in (5, len(traces) // 2, -3):
        c.sample(sources[k])
    h.close()
