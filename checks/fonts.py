"""C24, C25: fonts, judged by spec/FontTrace.tla (over spec/FontFile.tla); design in spec/FontSearch.tla."""
import json, os, re, struct, time
import vlib, pdfread, fontgen
from fontgen import *
from pdf import call
from vlib import Harness, tlc, write_ndjson

SEARCH = """SPECIFICATION Spec
CONSTANTS
  K = %d
  MaxSegments = %d
  Disorder = %s
  Schemes = %d
  Emit = %s
INVARIANT InRange
INVARIANT Kept
INVARIANT Right
INVARIANT MeetsAll
INVARIANT MeetsOnce
%s"""
TRACE = """SPECIFICATION Spec
CONSTANTS
  BaseFile = "%s"
  TraceFile = "%s"
  MaxEntries = %d
INVARIANT Conforms
"""


class Case:
    """A file, as a base with changes, and the characters to ask for"""

    def __init__(self, base, what, chars, n=None, ov=()):
        self.base, self.what, self.chars = base, what, chars
        self.n, self.ov = n, list(ov)

    def data(self, bases):
        d = bytearray(bases[self.base])
        for p, v in self.ov:
            d[p] = v
        return bytes(d[:len(d) if self.n is None else self.n])


def design(c, k, segments, disorder=False, schemes=1, emit=False, liveness=True):
    res = tlc("FontSearch", SEARCH % (k, segments, "TRUE" if disorder else "FALSE", schemes, "TRUE" if emit else "FALSE",
                                      ("PROPERTY Terminates\n" if liveness else "") + ("INVARIANT Export\n" if emit else "")), c.work)
    if not res.ok:
        raise vlib.ToolError("the specification contradicts itself:\n" + res.out[-2500:])
    c.add_tlc(res, "search, codes 0 to %d, %d segments%s" % (k, segments, ", in any order" if disorder else ""))
    return [json.loads(x) for x in res.prints]


def runs(entries):
    """(glyph, text) entries as runs of consecutive characters and glyphs"""
    out = []
    for g, s in entries:
        if len(s) != 1:
            return [[0, 0, -99]]
        ch = ord(s)
        if out and out[-1][1] == ch - 1 and g == out[-1][2] + ch - out[-1][0]:
            out[-1][1] = ch
        else:
            out.append([ch, ch, g])
    return out


def observe(c, h, bases, case, max_entries):
    text = "".join(map(chr, case.chars))
    what = case.what + "\nfont file (hex): " + case.data(bases).hex()[:2400]
    parts = call(c, h, "fontmap", case.data(bases), text, what=what)
    o = dict(base=case.base + 1, n=len(bases[case.base]) if case.n is None else case.n, ov=[list(x) for x in case.ov],
             chars=case.chars, got=[-1] * len(case.chars), parsed=False, shown=False, read=False, uni=[], what=case.what)
    lines = [p.decode() for t, p in parts if t == "L"]
    if lines[0] != "ok parse":
        c.cov.setdefault("answers", {}).setdefault(lines[0], 0)
        c.cov["answers"][lines[0]] += 1
        return o
    o["parsed"] = True
    bad = set(int(x) for x in lines[1].split()[1:])
    good = [k for k in range(len(case.chars)) if k not in bad]
    for k in good:
        o["got"][k] = -2   # not seen yet
    key = re.sub(r"[0-9]", "", lines[2]) + (" with characters refused" if bad else "")
    c.cov.setdefault("answers", {}).setdefault(key, 0)
    c.cov["answers"][key] += 1
    if lines[2] != "ok show":
        return o
    o["shown"] = True
    if len(parts[-1][1]) > 20000 + 100 * max_entries:
        # more entries or glyphs than are compared
        return o
    o["read"] = True
    try:
        pdf = pdfread.read(parts[-1][1], content_tokens=False)
        items = [i for p in pdf.pages for i in p.items if i.kind == "text"]
        glyphs = [g for i in items for g in i.glyphs]
        if len(glyphs) == len(good):
            for k, g in zip(good, glyphs):
                o["got"][k] = g
        o["uni"] = runs(pdfread.font_info(pdf, items[0].font)["cmap"]["entries"])
    except (pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError, struct.error) as e:
        o["uni"] = [[0, 0, -99]]
        o["what"] += "; bad PDF: %s %s" % (type(e).__name__, e)
    return o


def judge(c, name, h, bases, cases, max_entries):
    base_path = os.path.join(c.work, name.replace(" ", "-") + "-bases.ndjson")
    path = os.path.join(c.work, name.replace(" ", "-") + ".ndjson")
    obs = [observe(c, h, bases, x, max_entries) for x in cases]
    write_ndjson(base_path, [dict(b=list(b)) for b in bases])
    write_ndjson(path, obs)
    res = tlc("FontTrace", TRACE % (base_path, path, max_entries), c.work, timeout=800, heap="12g", coverage=False)
    c.add_tlc(res, name)
    if not res.ok:
        st = vlib.last_state(res.out)
        k = int(st["t"]) - 1
        case, o = cases[k], obs[k]
        c.violation("%s: %s\nfont: %s\nparsed %s, embedded %s\nfont file (hex): %s" % (
            name, st.get("why"), o["what"], o["parsed"], o["shown"], case.data(bases).hex()[:2400]),
            dict(font=case.data(bases).hex(), observed=dict(o, ov=[])))
    d = c.cov.setdefault("verdicts", {})
    for x in res.prints:
        d[x] = d.get(x, 0) + 1
    c.cov["traces_validated_against_impl"] += len(obs)
    c.cov["lookups"] = c.cov.get("lookups", 0) + sum(len(o["chars"]) for o in obs)
    c.cov["reverse_map_entries"] = c.cov.get("reverse_map_entries", 0) + sum(b - a + 1 for o in obs for a, b, _ in o["uni"])
    return obs


def is_char(x):
    return 0 <= x <= 0x10FFFF and not 0xD800 <= x < 0xE000


def near(segs, extra=()):
    """Characters at and around the ends of the segments"""
    out = set(extra)
    for a, b, *_ in segs:
        out |= {a - 1, a, a + 1, (a + b) // 2, b - 1, b, b + 1}
        out |= {x + 0x10000 for x in (a, b)}
        out |= {x - 0x10000 for x in (a, b)}
    out |= {0, 0x20, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000}
    return sorted(x for x in out if is_char(x))


def walk(rng, chars):
    """The characters in any order, each maybe followed by one that has much in common with it: no lookup depends on earlier ones"""
    out = []
    for x in rng.sample(chars, len(chars)):
        out.append(x)
        if rng.random() < 0.4:
            y = rng.choice([x, x % 0x10000 + 0x10000 * rng.randrange(17), x ^ 0x100, x ^ 0x1000, x ^ 0x8000, x ^ 0x10000])
            if is_char(y):
                out.append(y)
    return out


# ------------------------------------------------------------------ C24

def segment4(a, b, scheme, glyphs):
    """A segment of format 4 with one of the ways to assign glyphs"""
    n = b - a + 1
    if scheme == 1:
        return (a, b, 1 - a, None)
    if scheme == 2:
        return (a, b, -a, None)          # the first one maps to 0
    if scheme == 3:
        return (a, b, 65535 - a, None)   # 65535, 0, 1…
    at = len(glyphs)
    if scheme == 4:
        glyphs += [(5, 0, 7, 65535, 1, 9)[k % 6] for k in range(n)]
        return (a, b, 0, at)
    glyphs += [(5, 0, 3, 2, 65535, 4)[k % 6] for k in range(n)]
    return (a, b, 65533, at)             # glyphs wrap, one of them to 0


def start_glyph12(scheme):
    return (1, 0, 65534, 70000, 0xFFFFFFFF)[scheme - 1]


def small_font4(segs, base, tail):
    glyphs = []
    s = [segment4(a + base, b + base, sch, glyphs) for a, b, sch in segs]
    if tail:
        s.append((0xFFFF, 0xFFFF, 1, None))
    return s, font(cmap_table([(3, 1, table_cmap4(s, glyphs))]), [500, 600], glyph_count=3)


def small_font12(segs, base):
    g = [(a + base, b + base, start_glyph12(sch)) for a, b, sch in segs]
    return g, font(cmap_table([(3, 10, table_cmap12(g))]), [500, 600], glyph_count=3)


def random_map(rng, fmt, n, top):
    """n segments in order"""
    cuts = sorted(rng.sample(range(1, top), 2 * n))
    segs = [(cuts[2 * k], cuts[2 * k + 1] - 1) if cuts[2 * k + 1] > cuts[2 * k] + 1 else (cuts[2 * k], cuts[2 * k]) for k in range(n)]
    limit = rng.choice([3, 10, 60])
    segs = [(a, min(b, a + rng.randrange(limit))) for a, b in segs]
    if rng.random() < 0.5:   # adjacent segments
        for k in range(n - 1):
            if rng.random() < 0.5 and segs[k + 1][0] - segs[k][0] < limit:
                segs[k] = (segs[k][0], segs[k + 1][0] - 1)
    return segs


def random_font4(rng, n):
    segs = random_map(rng, 4, n, rng.choice([max(0x400, 6 * n), 0x3000, 0xFFF0]))
    glyphs, out = [], []
    for a, b in segs:
        if rng.random() < 0.5:
            out.append((a, b, rng.choice([0, 1, 0xFFFF, rng.randrange(65536), -a, -b, 5 - a]), None))
        else:
            if glyphs and rng.random() < 0.2:   # shared with another segment
                at = rng.randrange(len(glyphs))
            else:
                at = len(glyphs)
            need = at + b - a + 1 - len(glyphs)
            glyphs += [rng.choice([0, 1, 2, rng.randrange(65536), 0xFFFF]) for _ in range(max(0, need))]
            out.append((a, b, rng.choice([0, 0, 1, 0xFFFF, rng.randrange(65536)]), at))
    if rng.random() < 0.8:
        out.append((0xFFFF, 0xFFFF, 1, None))
    return out, table_cmap4(out, glyphs)


def random_font12(rng, n):
    top = rng.choice([max(0x3000, 6 * n), 0xFFFF, 0x20000, 0x10FFFF])
    segs = random_map(rng, 12, n, top)
    out = [(a, b, rng.choice([0, 1, 65535, 65530, 65536, rng.randrange(65536), 0x7FFFFFFF, 0xFFFFFFFF, rng.randrange(1 << 32)])) for a, b in segs]
    return out, table_cmap12(out)


def subtable_choices(rng, n):
    """Several subtables, only some of which count"""
    small4 = lambda d: table_cmap4([(0x41, 0x45, d - 0x41, None), (0xFFFF, 0xFFFF, 1, None)])
    small12 = lambda d: table_cmap12([(0x41, 0x45, d)])
    other = struct.pack(">HHH", 6, 20, 0) + struct.pack(">HH5H", 0x41, 5, 60, 61, 62, 63, 64)
    zero = struct.pack(">HHH", 0, 262, 0) + bytes(range(256))
    for _ in range(n):
        recs, d = [], 10
        for p, e in sorted(rng.sample([(0, 3), (0, 4), (1, 0), (3, 0), (3, 1), (3, 10), (4, 1), (3, 4)], rng.choice([2, 3, 4, 6]))):
            recs.append((p, e, rng.choice([lambda: small4(d), lambda: small12(d), lambda: other, lambda: zero])()
                         if rng.random() < 0.5 else small12(d) if e == 10 else small4(d)))
            d += 10
        yield "subtables %s" % [(p, e, struct.unpack(">H", s[:2])[0]) for p, e, s in recs], font(cmap_table(recs), [500, 600], glyph_count=90)


def C24(c):
    rng = c.rng
    # The design
    for k, n in c.n([(6, 3), (5, 5)], [(7, 4), (6, 6), (9, 3)]):
        design(c, k, n)
    design(c, 3, 2, disorder=True)
    if c.thorough:
        design(c, 3, 3, disorder=True, liveness=False)
    tables = design(c, c.n(3, 4), c.n(2, 3), schemes=5, emit=True, liveness=False)
    c.cov["tables_exported"] = len(tables)

    h = Harness(vlib.build(), timeout=60)
    # 1. Every small table the specification enumerates, at places that matter
    bases, cases = [], []

    def add(data, what, chars):
        bases.append(data)
        cases.append(Case(len(bases) - 1, what, walk(rng, chars)))

    for segs in tables:
        for base in rng.sample([0, 0x41, 0xD7FE, 0xDFFE, 0xFFFB], c.n(2, 3)):
            # the tail may not overlap: codes go up to 4
            tail = base != 0xFFFB
            s, d = small_font4(segs, base, tail)
            add(d, "format 4: segments (start, end, delta, place in the array) %s" % (s,), near([(a + base, b + base) for a, b, _ in segs]))
        for base in rng.sample([0, 0x41, 0xD7FE, 0xFFFE, 0x10FFFB, 0x10FFFE], c.n(2, 3)):
            g, d = small_font12(segs, base)
            add(d, "format 12: groups %s" % (g,), near(g))
    judge(c, "tables of the specification", h, bases, cases, 70000)
    c.sample(cases[len(cases) // 2].what)
    c.sample(cases[-1].what)

    # 2. Larger ones
    bases, cases = [], []
    for k in range(c.n(150, 1500)):
        n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100] + c.n([], [127, 128, 129, 255, 256, 300]))
        if k % 2:
            s, t = random_font4(rng, n)
            if len(t) > 60000:
                continue
            add(font(cmap_table([(3, 1, t)]), [500, 600], glyph_count=3), "format 4: %s" % (s,), near(rng.sample(s, min(len(s), 12))))
        else:
            s, t = random_font12(rng, n)
            add(font(cmap_table([(3, 10, t)]), [500, 600], glyph_count=3), "format 12: %s" % (s,), near(rng.sample(s, min(len(s), 12))))
    for what, data in subtable_choices(rng, c.n(120, 700)):
        add(data, what, list(range(0x40, 0x48)) + [0x60])
    judge(c, "larger tables", h, bases, cases, 70000)
    # 3. One segment for everything, and existing fonts
    bases, cases = [], []
    low = c.n(0xEC00, 0)
    add(font(cmap_table([(3, 1, table_cmap4([(low, 0xFFFF, 0, None)]))]), [500], glyph_count=3), "format 4, all in one", near([(low, 0xFFFF)]))
    add(font(cmap_table([(3, 10, table_cmap12([(low, 0x1034F, 3)]))]), [500], glyph_count=3), "format 12, large group", near([(low, 0x1034F)]))
    if c.thorough:
        add(font(cmap_table([(3, 10, table_cmap12([(0xF0000, 0x10FFFF, 0x8000)]))]), [500], glyph_count=3), "format 12, glyphs run out",
            near([(0xF0000, 0x10FFFF)], [0xF7FFF, 0xF8000, 0xF8001]))
    for name in c.n(["Vera.ttf"], ["Vera.ttf", "VeraMono.ttf", "VeraSeBd.ttf", "VeraBI.ttf"]):
        d = open(os.path.join(vlib.REPO, "victor/fonts/vera", name), "rb").read()
        add(d, name, list(range(0, 0x180, c.n(7, 1))) + [0x2013, 0x2014, 0x20AC, 0x2260, 0xFB01, 0xFFFF])
    judge(c, "large and existing fonts", h, bases, cases, 2000000)
    h.close()
    c.assumptions.append("glyphs are observed in the text operators and ToUnicode maps of written PDFs")


# ------------------------------------------------------------------ C25

def small_bases():
    m4 = table_cmap4([(0x41, 0x43, 1 - 0x41, None), (0x50, 0x52, 0, 0), (0xFFFF, 0xFFFF, 1, None)], [2, 0, 3])
    m12 = table_cmap12([(0x41, 0x42, 1), (0x1F600, 0x1F601, 3)])
    out = [font(cmap_table([(3, 1, m4)]), [500, 600, 700], glyph_count=5, name=b"A")]
    out.append(font(cmap_table([(3, 10, m12)]), [500, 600], name=b"B", glyph_count=4))
    # everything twice over; the data needed comes last, so that every cut takes away something
    both = cmap_table([(0, 3, m4), (3, 1, m4), (3, 10, m12)])
    t = {"cmap": both, "head": head_table(), "hhea": hhea_table(1), "hmtx": hmtx_table([512]), "maxp": maxp_table(2),
         "name": name_table([(0, 3, 6, b"\0x"), (1, 0, 1, b"x"), (3, 1, 6, b"\0C\0c")])}
    out.append(sfnt(t, scaler=0x74727565))
    return out


def table_ranges(data):
    n = struct.unpack(">H", data[4:6])[0]
    for k in range(n):
        tag, _, off, ln = struct.unpack(">4sIII", data[12 + 16 * k:28 + 16 * k])
        yield tag.decode(), off, ln


CHARS = [0x41, 0x42, 0x43, 0x44, 0x50, 0x51, 0x52, 0x20, 0xFFFF, 0x1F600, 0x1F601, 0x1F602, 0x10FFFF, 0]


def C25(c):
    rng = c.rng
    h = Harness(vlib.build(), timeout=40)
    bases = small_bases()
    cases = []
    slow = 0
    for k, d in enumerate(bases):
        cases.append(Case(k, "font %d as it is" % k, CHARS))
        for n in range(len(d)):
            cases.append(Case(k, "font %d cut to %d bytes" % (k, n), CHARS, n=n))
        used = [p for p in range(len(d))]
        for p in used:
            vals = {0, 0xFF, 0x80, 0x7F, 1, (d[p] + 1) & 255, (d[p] - 1) & 255, d[p] ^ 2, d[p] ^ 64} - {d[p]}
            for v in sorted(vals) if c.thorough else rng.sample(sorted(vals), 2):
                cases.append(Case(k, "font %d with byte %d set to %d" % (k, p, v), CHARS, ov=[(p, v)]))
        # 16-bit and 32-bit fields at their extremes
        for p in range(0, len(d) - 1, 2):
            for v in (b"\0\0", b"\xff\xff", b"\x7f\xff", b"\x80\0", b"\xff\xfe", b"\0\1"):
                if c.thorough or rng.random() < 0.35:
                    cases.append(Case(k, "font %d with %s at %d" % (k, v.hex(), p), CHARS, ov=[(p, v[0]), (p + 1, v[1])]))
        for p in range(0, len(d) - 3, 2):
            for v in (b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\x80\0\0\0", b"\xff\xff\xff\xf0", b"\0\0\xff\xff", b"\0\x10\xff\xff",
                      struct.pack(">I", len(d)), struct.pack(">I", len(d) - 1), struct.pack(">I", len(d) - 2), struct.pack(">I", len(d) - 4)):
                if c.thorough or rng.random() < 0.2:
                    cases.append(Case(k, "font %d with %s at %d" % (k, v.hex(), p), CHARS, ov=[(p + j, v[j]) for j in range(4)]))
    # several changes, with and without a cut; swapped and repeated directory entries
    for _ in range(c.n(1500, 12000)):
        k = rng.randrange(len(bases))
        d = bases[k]
        ov = {}
        for _ in range(rng.choice([2, 2, 3, 5])):
            tag, off, ln = rng.choice(list(table_ranges(d)) + [("dir", 0, 12 + 16 * 6)])
            p = off + rng.randrange(max(ln, 1))
            if p < len(d):
                for j, b in enumerate(rng.choice([b"\0", b"\xff", b"\xff\xff", b"\0\0", b"\1", bytes([rng.randrange(256)])])):
                    if p + j < len(d):
                        ov[p + j] = b
        n = rng.choice([None, None, rng.randrange(len(d) + 1)])
        cases.append(Case(k, "font %d with %s, cut to %s" % (k, ov, n), CHARS, n=n, ov=sorted(ov.items())))
    # not fonts at all
    for _ in range(c.n(200, 1500)):
        d = rng.choice([b"", b"\0\1\0\0", b"true", b"OTTO", b"ttcf"]) + bytes(rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 8, 40, 200])))
        bases.append(d)
        cases.append(Case(len(bases) - 1, "random bytes", CHARS))
    # names of any length, in any encoding
    m = cmap_table([(3, 10, table_cmap12([(0x41, 0x45, 1)]))])
    for platform, encoding in ((1, 0), (3, 1), (3, 0), (0, 3), (3, 10)):
        for name in (b"", b"\0", b"\0A", b"\0A\0", b"\0A\0B\0", b"\0A\xd8", b"\xd8\0\xdc\0", b"A", b"AB", b"A\0B", b"\0" * 7, b"\xff" * 9, b"\0()\0/ \0#"):
            bases.append(font(m, [500], names=[(platform, encoding, 6, name)]))
            cases.append(Case(len(bases) - 1, "PostScript name %r of platform %d, encoding %d" % (name, platform, encoding), CHARS))
    # character maps with their entries in disorder, empty, reversed
    for segs in ([(5, 3)], [(0x50, 0x60), (0x41, 0x45)], [(0x41, 0x60), (0x50, 0x70)], [(0, 0xFFFF)] * 40, [(0xFFFF, 0)], [],
                 [(0, 0xFFFF), (0xFFFF, 0xFFFF)], [(0x41, 0x41)] * 5):
        for delta in (0, 1, 0xFFFF):
            bases.append(font(cmap_table([(3, 1, table_cmap4([(a, b, delta, None) for a, b in segs]))]), [500], glyph_count=3))
            cases.append(Case(len(bases) - 1, "format 4 segments %s" % segs[:4], CHARS))
        bases.append(font(cmap_table([(3, 1, table_cmap4([(a, b, 0, 0) for a, b in segs], [1, 2, 3]))]), [500], glyph_count=3))
        cases.append(Case(len(bases) - 1, "format 4 segments %s with a short glyph array" % segs[:4], CHARS))
    big = 0xFFFFFFFF
    for groups in ([(0, big, 0)], [(0, big, big)], [(big, big, 1)], [(0, 0x10FFFF, 1)] * 30, [(0x110000, big, 0)], [(5, 3, 1)],
                   [(0x41, 0x45, big), (0x44, 0x46, 1)], [], [(0x50, 0x50, 1), (0x41, 0x41, 2)], [(0xD7FF, 0xE000, 5)],
                   [(0, 0xFFFF, 0)] * 100):
        bases.append(font(cmap_table([(3, 10, table_cmap12(groups))]), [500], glyph_count=3))
        cases.append(Case(len(bases) - 1, "format 12 groups %s" % groups[:4], CHARS))
    # as many entries as a map has room for, each for every character: no answer within the time if each is gone through
    bases.append(font(cmap_table([(3, 1, table_cmap4([(0, 0xFFFF, 1, None)] * 32000))]), [500], glyph_count=3))
    cases.append(Case(len(bases) - 1, "format 4, 32000 segments of every character", CHARS))
    bases.append(font(cmap_table([(3, 10, table_cmap12([(0, 0x10FFFF, 1)] * 4000))]), [500], glyph_count=3))
    cases.append(Case(len(bases) - 1, "format 12, 4000 groups of every character", CHARS))
    for glyphs, metrics in ((65535, 1), (65535, 0), (0, 0), (0, 1), (3, 65535), (65535, 65535)):
        bases.append(font(cmap_table([(3, 10, table_cmap12([(0x41, 0x45, 1)]))]), [500], glyph_count=glyphs, hhea=hhea_table(metrics)))
        cases.append(Case(len(bases) - 1, "%d glyphs, %d metrics" % (glyphs, metrics), CHARS))
    for upem in (0, 1, 65535):
        bases.append(font(cmap_table([(3, 10, table_cmap12([(0x41, 0x45, 1)]))]), [0, 500, 65535], upem=upem))
        cases.append(Case(len(bases) - 1, "%d units per em" % upem, CHARS))
    t = time.time()
    judge(c, "malformed fonts", h, bases, cases, 3000)
    c.cov["cases"] = len(cases)
    c.sample(cases[700].what)
    c.sample(cases[-200].what)
    h.close()
    c.assumptions.append("a hang is no answer within 40 s")
