"""C01, C02: documents built by the HTML and XML parsers, judged by spec/DomTrace.tla."""
import itertools, json, os, re
import vlib, pdfread, render
from vlib import Harness, tlc, write_ndjson
from htmldoc import items_of

TAGS = """html head body title p div span a b i u s em strong font nobr code table tbody thead tfoot tr td th caption
colgroup col form input button select option optgroup ul ol li dl dt dd h1 h2 svg math mi mtext desc g path template
frameset frame noframes iframe textarea pre listing script noscript br hr img center marquee object applet ruby rt rp rb
main article section address plaintext image keygen big tt strike xmp isindex foreignobject annotation-xml""".split()
COLORS = {tag: 0x010000 * (1 + k % 16 * 15) + 0x0100 * (k // 16 * 40) + 7 * (k % 31) for k, tag in enumerate(TAGS)}
COLORS["*"] = 0xfefefe
SHEET = ("*{display:block!important;margin:0!important;padding:0!important;padding-left:1px!important;font-size:1px!important;"
         "position:static!important;width:auto!important;height:auto!important;border-width:0!important;background:#fefefe!important}"
         "style{display:none!important}"
         '[a="1"]{margin-left:1px!important}[a="2"]{margin-left:2px!important}'
         '[b="1"]{margin-right:1px!important}[b="2"]{margin-right:2px!important}'
         + "".join("%s{background:#%06x!important}" % (k, v) for k, v in COLORS.items() if k != "*" and re.match(r"^[a-z0-9]+$", k)))
COLORS["annotation-xml"] = COLORS["*"]

CFG = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "%s"
  FontFile = "%s"
INVARIANT Conforms
INVARIANT IsForest
"""

LINKS_CFG = """SPECIFICATION Spec
CONSTANT N = %d
INVARIANT IsForest
INVARIANT Represents
INVARIANT ReparentAgrees
PROPERTY ReparentWhole
CHECK_DEADLOCK FALSE
"""


def points(s):
    return [ord(x) for x in s]


def record(source, parts, error=None):
    """One trace from what the harness reported for one document"""
    rec = dict(ops=[], dump=[], items=[], error="", paint=False, colors=COLORS,
               query=False, links=[], types=[], sheets=[], effect=0)
    pdf = None
    for tag, payload in parts:
        if tag == "P":
            rec["error"] = "panic: " + payload.decode("utf8", "replace")
        elif tag == "B":
            pdf = payload
        elif payload.startswith(b"ops error"):
            rec["ops"] = None
        elif payload.startswith(b"dump error"):
            rec["dump"] = None
        elif payload.startswith(b"ops "):
            rec["ops"] = [dict(o, txt=points(o["s"][0]) if o["s"] and o["op"] in ("append", "before", "based", "chars") else [])
                          for o in json.loads(payload[4:])]
        elif payload.startswith(b"links "):
            rec["links"] = json.loads(payload[6:])
        elif payload.startswith(b"dump "):
            for n in json.loads(payload[5:]):
                s = n["s"]
                attrs, txt = [], []
                if n["k"] == "E":
                    s, attrs = s[:2], [s[k:k + 3] for k in range(2, len(s), 3)]
                elif n["k"] == "T":
                    s, txt = [], points(s[0])
                rec["dump"].append(dict(l=n["l"], k=n["k"], s=s, attrs=attrs, txt=txt))
    if error:
        rec["error"] = error
    if not rec["error"] and pdf is not None:
        try:
            rec["items"] = [i for i in tidy(items_of(pdfread.read(pdf)))]
            rec["paint"] = True
        except (pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError) as e:
            rec["error"] = "bad PDF: %s %s" % (type(e).__name__, e)
    return rec


def tidy(items):
    """Without spaces and what has become empty by that; only the kind and glyphs of a text count"""
    for i in items:
        g = [x for x in i["g"] if x != 3]
        if i["k"] == "rect":
            yield i
        elif g:
            yield dict(i, g=g, c=0)


def foreign_input(rec):
    """Whether the user agent's rule for input[type=hidden i] is for this element too depends on its @namespace rule, which
    the code does not apply: not a matter of the tree"""
    return any(o["op"] in ("element", "start") and o["s"][1] == "input" and o["s"][0] != XHTML and
               any(a[1] == "type" for a in o["attrs"]) for o in rec["ops"])


def simple_text(rec):
    """Whether all characters are in the part of the font that the specification knows"""
    return all(x < 0x250 and x not in (0xa0, 0xad) for o in rec["ops"] for x in o["txt"])


def judge(c, name, docs, mode, effects=None):
    """docs: byte strings; effects: of the texts of style sheets, to compare links and style sheets"""
    h = Harness(vlib.build(), timeout=120)
    recs, kept = [], []
    rejected = 0
    for k in range(0, len(docs)):
        try:
            rec = record(docs[k], h.call(mode, docs[k]))
        except Harness.Died as e:
            rec = record(docs[k], [], "the code under test did not answer: %s" % e)
        if rec["ops"] is None or rec["dump"] is None:
            # not well-formed: both must say so
            if not rec["error"] and (rec["ops"] is None) != (rec["dump"] is None):
                if rec["ops"] is None or not second_root(rec["ops"]):
                    c.violation("%s: %s although the XML parser %s\n%r" % (
                        name, "rejected" if rec["dump"] is None else "accepted", "rejects it" if rec["ops"] is None else "accepts it",
                        docs[k]), dict(document=docs[k].decode("utf8", "replace")))
            if rec["error"]:
                c.violation("%s: %s\n%r" % (name, rec["error"], docs[k]), dict(document=docs[k].decode("utf8", "replace")))
            rejected += 1
            continue
        rec["paint"] = rec["paint"] and SHEET.encode() in docs[k] and simple_text(rec) and not foreign_input(rec)
        if effects is not None and not rec["error"]:
            rec.update(query=True, types=CSS_TYPES, sheets=effects[k], paint=False)
            xs = [i["x"] for i in rec["items"] if i["k"] == "rect" and i["c"] == EFFECT_COLOR]
            rec["effect"] = round(xs[0] / 10240) if len(xs) == 1 else -len(xs)
            rec["items"] = []
        recs.append(rec)
        kept.append(docs[k])
    h.close()
    c.cov["traces_validated_against_impl"] += rejected
    if mode == "domxml":
        c.cov["rejected_as_not_well_formed"] = c.cov.get("rejected_as_not_well_formed", 0) + rejected
    if not recs:
        return
    if not any(r["dump"] for r in recs):
        c.assumptions.append("the hook that shows the nodes of a document does not compile: only what is painted was compared")
    path = os.path.join(c.work, re.sub(r"\W+", "-", name) + ".ndjson")
    write_ndjson(path, recs)
    res = tlc("DomTrace", CFG % (path, render.font_file(c)), c.work, timeout=880, heap="12g", coverage=len(recs) < 1500)
    if not res.ok:
        st = vlib.last_state(res.out)
        inv = re.search(r"Invariant (\w+) is violated", res.out)
        if not st or not inv or inv.group(1) != "Conforms":
            raise vlib.ToolError("DomTrace: %s" % res.out[-3000:])
        r, d = recs[int(st["t"]) - 1], kept[int(st["t"]) - 1]
        c.violation("%s: %s\ndocument:\n%s\noperations:\n%s\npainted:\n%s" % (
            name, st["verdict"], d.decode("utf8", "replace")[-1500:], "\n".join(json.dumps(o)[:200] for o in r["ops"][-40:]),
            render.show(r["items"])[:1500]), dict(document=d.decode("utf8", "replace"), trace=r, tree=st.get("kids")))
    c.add_tlc(res, name)
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["painted_compared"] = c.cov.get("painted_compared", 0) + sum(r["paint"] for r in recs)
    c.cov["operations"] = c.cov.get("operations", 0) + sum(len(r["ops"]) for r in recs)
    c.sample("%s:\n%s" % (name, kept[-1].decode("utf8", "replace").replace(SHEET, "…")))
    return recs


def second_root(ops):
    depth = roots = 0
    for o in ops:
        if o["op"] == "start":
            roots += depth == 0
            depth += 1
        elif o["op"] == "end":
            depth -= 1
    return roots > 1


# ------------------------------------------------------------------ HTML

FORMATTING = "a b i u s em strong font nobr code big tt strike".split()
TABLE = "table tbody thead tfoot tr td th caption colgroup col".split()
BLOCK = "p div ul ol li dl dt dd h1 h2 center address pre main section form".split()
SPECIAL = "select option optgroup button svg math mi mtext desc template marquee object applet ruby rt rp textarea".split()
RARE = """html head body frameset frame noframes iframe script noscript title br hr img input image isindex xmp listing
plaintext foreignObject annotation-xml keygen style g path base link meta""".split()


def attrs(rng):
    s = ""
    for name in "ab":
        if rng.random() < 0.25:
            s += ' %s=%s' % (name, rng.choice("12"))
    if rng.random() < 0.05:
        s += rng.choice([" a=2 a=1", ' type=hidden', ' encoding="text/html"', " href='x&amp;y'", ' A="1"', " c", ' xlink:href="z"',
                         ' definitionurl=q', " class='k'"])
    return s


WORD = "x y zz one two three é ÿ".split()


ATTR_NAMES = """a b id is hr class style title lang href src data-x data-y x-1 onload definitionurl xlink:href xml:lang
xmlns:xlink é ß A Class viewbox ID""".split()


def many_attrs(rng, n=None):
    """Names of all sorts, some twice"""
    s = ""
    for _ in range(rng.randrange(0, 6) if n is None else n):
        name = rng.choice(ATTR_NAMES)
        s += " " + name + rng.choice(["", "=1", "=2", "=''", '="x y"', "='&amp;'", "=é"])
    return s


def repeated_roots(rng, n):
    """html and body start tags again, anywhere, each with its own attributes"""
    for _ in range(n):
        out = [rng.choice(["", "<html%s>" % many_attrs(rng)]), rng.choice(["", "<head%s>" % many_attrs(rng), "<style></style>"]),
               rng.choice(["", "<body%s>" % many_attrs(rng), "x", "<p>"])]
        for _ in range(rng.randrange(1, 8)):
            out.append(rng.choice(["<html%s>", "<body%s>", "<html%s>", "<body%s>", "<p%s>", "<svg%s>", "</body%s>", "</html%s>", "<div%s>x"])
                       % many_attrs(rng))
        yield "".join(out)


def text(rng):
    r = rng.random()
    if r < 0.7:
        return rng.choice(WORD)
    if r < 0.85:
        return rng.choice([" ", "\n", " x", "y ", "x y", "\t", "\r\n"])
    return rng.choice(["&amp;", "&lt;x", "\0", "a\0b", "&#120;", "&notanentity;", "<", "]]>", "&eacute"])


def soup(rng, n):
    """A run of tags and texts, misnested on purpose"""
    groups = [FORMATTING, TABLE, BLOCK, SPECIAL, RARE]
    weights = [rng.choice([0.2, 1, 3]) for _ in groups]
    weights[4] *= 0.25
    opened = []
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            tag = rng.choice(rng.choices(groups, weights)[0])
            if tag == "plaintext" and rng.random() < 0.9:
                tag = "p"
            out.append("<%s%s%s>" % (tag, attrs(rng), "/" if rng.random() < 0.03 else ""))
            opened.append(tag)
        elif r < 0.72 and opened:
            # the innermost, or another one: misnesting
            k = -1 if rng.random() < 0.5 else rng.randrange(len(opened))
            out.append("</%s>" % opened.pop(k))
        elif r < 0.76:
            out.append("</%s>" % rng.choice(rng.choices(groups, weights)[0]))
        elif r < 0.8:
            out.append(rng.choice(["<!--c-->", "<!---->", "<!--x", "<?pi x>", "<!bogus>", "</>", "<![CDATA[x]]>", "</x y>", "<!DOCTYPE x>"]))
        else:
            out.append(text(rng))
    return "".join(out)


def start(rng):
    s = rng.choice(["<!DOCTYPE html>", "<!DOCTYPE html>", "", '<!DOCTYPE html PUBLIC "-//W3C//DTD HTML 4.01//EN" "u">', "<!-- c --><!doctype html>"])
    if rng.random() < 0.3:
        s += "<html%s>" % attrs(rng)
    if rng.random() < 0.2:
        s += "<head%s>" % attrs(rng)
    return s + "<style>" + SHEET + "</style>"


def small_soups(alphabet, n):
    for seq in itertools.product(alphabet, repeat=n):
        # A first end tag that closes nothing is not interesting
        if not seq[0].startswith("</"):
            yield "".join(seq)


A1 = ["<b>", "</b>", "<p>", "</p>", "<i>", "</i>", "x", "<div>", "</div>"]
A2 = ["<table>", "</table>", "<tr>", "<td>", "</td>", "x", "<b>", "</b>", "<p>", " "]
A3 = ["<a>", "</a>", "<table>", "<td>", "</table>", "x", "<a a=1>", "<p>", "<body a=1>", "<html b=1>"]


def mutate(rng, data):
    data = bytearray(data)
    for _ in range(rng.randrange(1, 8)):
        k = rng.randrange(len(data) + 1)
        r = rng.random()
        if r < 0.4:
            data[k:k + 1] = bytes([rng.randrange(256)])
        elif r < 0.7:
            del data[k:k + rng.randrange(1, 6)]
        else:
            j = rng.randrange(len(data) + 1)
            data[k:k] = data[j:j + rng.randrange(1, 20)]
    return bytes(data)


def design(c):
    # Every history over 6 nodes; long random ones over more nodes
    walks = [("DomLinks", 6, ())] + [("DomLinks, %d nodes, random" % n, n, ("-simulate", "num=%d" % k, "-depth", "120", "-seed", str(c.seed)))
                                     for n, k in c.n([(9, 8)], [(8, 150), (12, 40), (20, 8)])]
    for name, n, extra in walks:
        res = tlc("DomLinks", LINKS_CFG % n, c.work, timeout=600, heap="12g", coverage=not extra and not c.thorough, extra=extra)
        if not res.ok:
            raise vlib.ToolError("DomLinks: the design contradicts the specification:\n" + res.out[-3000:])
        c.add_tlc(res, name)


def C01(c):
    design(c)
    rng = c.rng
    head = "<!DOCTYPE html><style>" + SHEET + "</style>"
    for k, alphabet in enumerate([A1, A2, A3]):
        docs = list(small_soups(alphabet, c.n(4, 5)))
        limit = c.n(260, 4000)
        docs = docs if len(docs) <= limit else rng.sample(docs, limit)
        if not c.thorough:
            docs += list(small_soups(alphabet, 2))
        judge(c, "short tag sequences %d" % (k + 1), [(head + d).encode() for d in docs], "dom")
    judge(c, "adoption agency", [(head + d).encode() for d in adoption(rng, c.n(150, 1500))], "dom")
    judge(c, "repeated html and body tags", [("<!DOCTYPE html>" + d).encode() for d in repeated_roots(rng, c.n(200, 1500))], "dom")
    judge(c, "tables", [(head + d).encode() for d in tables(rng, c.n(150, 1500))], "dom")
    judge(c, "tag soup", [(start(rng) + soup(rng, rng.randrange(4, 40))).encode() for _ in range(c.n(350, 2000))], "dom")
    judge(c, "damaged documents", [mutate(rng, (start(rng).replace(SHEET, "") + soup(rng, rng.randrange(4, 30))).encode())
                                   for _ in range(c.n(150, 1500))], "dom")
    c.assumptions.append("The operations are those html5ever 0.22.5 asks a sink for; that they are the ones the HTML standard prescribes is its business.")


def adoption(rng, n):
    """Formatting elements closed in the wrong order around blocks with several children"""
    for _ in range(n):
        f = [rng.choice(FORMATTING) for _ in range(rng.randrange(1, 10))]
        out = []
        for t in f:
            out.append("<%s%s>" % (t, attrs(rng)))
            if rng.random() < 0.3:
                out.append(text(rng))
        for _ in range(rng.randrange(1, 4)):
            b = rng.choice(BLOCK)
            out.append("<%s%s>" % (b, attrs(rng)))
            for _ in range(rng.randrange(0, 5)):
                out.append(rng.choice([text(rng), "<hr>", "<span>" + text(rng) + "</span>", "<!--c-->", "<b>", "<i>x</i>"]))
        closing = f[:]
        rng.shuffle(closing)
        for t in closing[:rng.randrange(1, len(closing) + 1)]:
            out.append("</%s>" % t)
            if rng.random() < 0.4:
                out.append(text(rng))
        yield "".join(out)


def tables(rng, n):
    """What does not belong in a table, at every place of it"""
    for _ in range(n):
        out = [rng.choice(["", "<p>", "<b>", "<div>x", "x", "<svg><desc>", "<template>"])]
        for _ in range(rng.randrange(4, 25)):
            r = rng.random()
            if r < 0.5:
                out.append(rng.choice(["<table>", "<table%s>" % attrs(rng), "</table>", "<tbody>", "<tr>", "</tr>", "<td>", "</td>", "<th>",
                                       "<caption>", "</caption>", "<colgroup>", "<col>", "<thead>", "</tbody>"]))
            elif r < 0.75:
                out.append(text(rng))
            else:
                out.append(rng.choice(["<b>", "</b>", "<p>", "</p>", "<div>", "</div>", "<a>", "</a>", "<input type=hidden>", "<input>",
                                       "<form>", "</form>", "<select>", "</select>", "<style></style>", "<script></script>",
                                       "<!--c-->", "<i%s>" % attrs(rng), "<svg>", "</svg>", "<br>", "<template>", "</template>"]))
        yield "".join(out)


# ------------------------------------------------------------------ XML

XHTML = "http://www.w3.org/1999/xhtml"


class XmlGen:
    """A document and the operations it stands for, written side by side"""

    def __init__(self, rng):
        self.rng, self.out, self.ops = rng, [], []

    def op(self, name, s=(), attrs=(), txt=""):
        self.ops.append(dict(op=name, a=0, b=0, n=0, s=list(s), attrs=[list(x) for x in attrs], txt=points(txt)))

    def misc(self, p=0.2):
        while self.rng.random() < p:
            r = self.rng.random()
            if r < 0.4:
                self.out.append(self.rng.choice(["<!-- c -->", "<!---->", "<!-- <x> & -->"]))
            elif r < 0.7:
                self.out.append(self.rng.choice([" ", "\n", "\t "]))
            else:
                self.pi()

    def pi(self):
        t, d = self.rng.choice([("p", ""), ("x-y", "a b"), ("q", "<&>"), ("p", "x?y")])
        self.out.append("<?%s%s?>" % (t, " " + d if d else ""))
        self.op("xpi", [t, d])

    def chars(self):
        for _ in range(self.rng.randrange(1, 4)):
            r = self.rng.random()
            if r < 0.4:
                s = self.rng.choice(["x", "y z", "one", " two", "é", "]", "]]"])
                self.out.append(s)
            elif r < 0.6:
                s = self.rng.choice([" ", "\n", "  \n "])
                self.out.append(s)
            elif r < 0.8:
                s = self.rng.choice(["x", "<b>", "a&b", " ", "]", "", "]]"])
                self.out.append("<![CDATA[%s]]>" % s)
            else:
                ref, s = self.rng.choice([("&amp;", "&"), ("&lt;", "<"), ("&#120;", "x"), ("&#xE9;", "é"), ("&gt;", ">"), ("&quot;", '"')])
                self.out.append(ref)
            if self.rng.random() < 0.2:
                self.out.append("<!--c-->")
            if s:
                self.op("chars", [s], txt=s)

    def element(self, depth, budget, ns, prefixes, root=False):
        rng = self.rng
        tag = "html" if root else rng.choice(["p", "div", "b", "span", "table", "td", "x", "g", "P", "li"])
        decls, local = "", dict(prefixes)
        use = ""
        if root or rng.random() < 0.15:
            ns = XHTML if root else rng.choice([XHTML, "urn:x", "", "http://www.w3.org/2000/svg"])
            decls += ' xmlns="%s"' % ns
        if rng.random() < 0.15:
            p = rng.choice(["q", "r"])
            local[p] = rng.choice(["urn:q", XHTML, "urn:r"])
            decls += ' xmlns:%s="%s"' % (p, local[p])
        ens = ns
        if not root and local and rng.random() < 0.25:
            use = rng.choice(sorted(local))
            ens, use = local[use], use + ":"
        at, written = [], ""
        for name in rng.sample(XML_ATTRS, rng.choice([0, 0, 1, 2, 4])):
            v, w = rng.choice([("1", "1"), ("2", "2"), ("x y", "x y"), ("<&", "&lt;&amp;"), ("", "")])
            at.append(("", name, v))
            written += " %s=%s" % (name, '"%s"' % w if rng.random() < 0.7 else "'%s'" % w)
        if local and rng.random() < 0.35:
            for p in rng.sample(sorted(local), rng.randrange(1, len(local) + 1)):
                name = rng.choice(XML_ATTRS)
                if not any(x[0] == local[p] and x[1] == name for x in at):
                    v = rng.choice("12")
                    at.append((local[p], name, v))
                    written += ' %s:%s="%s"' % (p, name, v)
        if rng.random() < 0.05:
            at.append(("http://www.w3.org/XML/1998/namespace", rng.choice(["lang", "space", "id"]), "x"))
            written += ' xml:%s="x"' % at[-1][1]
        self.op("start", [ens, tag], at)
        pieces = [decls, written]
        rng.shuffle(pieces)
        self.out.append("<%s%s%s" % (use, tag, "".join(pieces)))
        n = rng.choice([0, 1, 2, 3, 5]) if depth else 0
        if root:
            self.out.append(">")
            # the style sheet first
            self.op("start", [XHTML, "style"])
            self.op("chars", [SHEET], txt=SHEET)
            self.op("end")
            self.out.append("<style>%s</style>" % SHEET)
        elif n == 0 and rng.random() < 0.5:
            self.out.append(rng.choice(["/>", " />"]))
            self.op("end")
            return budget
        else:
            self.out.append(">")
        for _ in range(n + 3 * root):
            if budget <= 0:
                break
            r = rng.random()
            if r < 0.45:
                self.chars()
            elif r < 0.55:
                self.pi()
            elif r < 0.6:
                self.out.append("<!-- c -->")
            else:
                budget = self.element(depth - 1, budget - 1, ns, local)
        self.out.append("</%s%s%s>" % (use, tag, rng.choice(["", "", " "])))
        self.op("end")
        return budget

    def document(self):
        rng = self.rng
        if rng.random() < 0.3:
            self.out.append(rng.choice(['<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n']))
        self.misc()
        if rng.random() < 0.2:
            self.out.append(rng.choice(["<!DOCTYPE html>", '<!DOCTYPE x SYSTEM "y">\n']))
            self.misc()
        self.element(rng.randrange(1, 6), rng.randrange(0, 25), "", {}, root=True)
        self.misc()
        return "".join(self.out).encode(), self.ops


XML_ATTRS = "a b c é data-x A class id style title lang type href a.b value hidden name src".split()

BAD_XML = [b"", b" ", b"x", b"<a>", b"</a>", b"<a></b>", b"<a/><b/>", b"<a/>x", b"x<a/>", b"<a b='1' b='2'/>", b"<a b=1/>", b"<a>&x;</a>",
           b"<p:a/>", b"<a>]]></a>", b"<a><![CDATA[x</a>", b"<!-- -- --><a/>", b"<a/><?xml version='1.0'?>", b"<a", b"<a b='<'/>",
           b"\xff<a/>", b"<a>\xc3</a>", b"<a>&#0;</a>", b"<a/>&amp;", b"<![CDATA[x]]><a/>", b"<a/><![CDATA[x]]>", b"&#32;<a/>", b"<a/><a/><a/>",
           b"<!DOCTYPE a><!DOCTYPE b><a/>", b"<?x?>", b"<!-- c -->", b"<!DOCTYPE a>", b"<a/><!-- c --><b/>", b"<a></a><b></b>", b"\xef\xbb\xbf<a/>",
           b"<a>\x01</a>", b"<a><b></a></b>", b"<?x?><a/><?y z?>", b"<a/> \n<!-- c -->\n<?y?>", b"<1/>", b"< a/>", b"<a / >"]


def C02(c):
    design(c)
    rng = c.rng
    for d in BAD_XML:
        c.cov.setdefault("malformed_and_edge_cases", 0)
        c.cov["malformed_and_edge_cases"] += 1
    judge(c, "edge cases", BAD_XML, "domxml")
    h = Harness(vlib.build())
    for d in (b"<a/><b/>", b"<a></a><!-- c --><b>x</b>", b"<a/>\n<a/>"):
        parts = h.call("domxml", d)
        if not any(p.startswith(b"dump error") for t, p in parts):
            c.violation("a document with two root elements is accepted: %r" % d, dict(document=d.decode()))
    h.close()
    docs, ops = zip(*[XmlGen(rng).document() for _ in range(c.n(500, 3000))])
    check_generated(c, docs, ops)
    recs = judge(c, "documents", list(docs), "domxml")
    judge(c, "damaged documents", [mutate(rng, rng.choice(docs).replace(SHEET.encode(), b"")) for _ in range(c.n(400, 3000))], "domxml")
    c.assumptions.append("What is well-formed is what xml-rs 0.8.29 accepts, except for a second root element.")


def check_generated(c, docs, ops):
    """The tree of the generator must be the one of the parser's events: an independent oracle for those"""
    h = Harness(vlib.build(), timeout=120)
    for d, o in zip(docs, ops):
        rec = record(d, h.call("domxml", d))
        if rec["ops"] is None:
            raise vlib.ToolError("generated document is not well-formed: %r" % d.replace(SHEET.encode(), b""))
        if normal(rec["ops"]) != normal(o):
            raise vlib.ToolError("generated document is understood otherwise by xml-rs: %r\n%s" % (
                d.replace(SHEET.encode(), b""), [x for x in zip(normal(rec["ops"]), normal(o)) if x[0] != x[1]][:1]))
    h.close()


def normal(ops):
    """Runs of text as one; attributes sorted"""
    res = []
    for o in ops:
        x = (o["op"], o["s"], sorted(map(tuple, o["attrs"])))
        if o["op"] == "chars":
            if not o["s"][0]:
                continue
            if res and res[-1][0] == "chars":
                res[-1] = ("chars", [res[-1][1][0] + o["s"][0]], [])
                continue
        res.append(x)
    return res


# ------------------------------------------------------------------ C30: links and style sheets

CSS_TYPES = ["", "text/css", "TEXT/css", "Text/Css", "teXt/cSS"]
OTHER_TYPES = ["text/plain", "text/css;", " text/css", "text/css ", "css", "text/c\u017f\u017f", "text", "x"]
EFFECT_COLOR = 0x010203
CSS = ":root{margin-left:%dpx;background:#010203;display:block}"


class QueryGen:
    """Documents with links and style sheets all over; sheets: what each text that is in a style sheet does"""

    def __init__(self, rng):
        self.rng, self.sheets, self.k = rng, [], 0

    def css(self):
        """The text of a style sheet, in pieces between which something may be put that is not its text"""
        rng = self.rng
        self.k += 1
        v = self.k
        whole = rng.choice([CSS, CSS, CSS[:-1], "/**/" + CSS, "x{}" + CSS, CSS + "\n", "@x;" + CSS, CSS.replace("left:", "left: ")]) % v
        if rng.random() < 0.15:
            # several rules for it
            whole = CSS % (100 + v) + whole
        self.sheets.append(dict(txt=points(whole), v=v))
        if rng.random() < 0.3:
            # with something in between, which would make it a larger number
            i = whole.index("px", whole.rindex("margin"))
            return [whole[:i], whole[i:]]
        cuts = sorted(rng.randrange(len(whole) + 1) for _ in range(rng.choice([0, 0, 1, 2, 4])))
        return [whole[a:b] for a, b in zip([0] + cuts, cuts + [len(whole)])]

    def type_(self, quote='"'):
        rng = self.rng
        if rng.random() < 0.55:
            return ""
        return " type=%s%s%s" % (quote, rng.choice(CSS_TYPES if rng.random() < 0.5 else OTHER_TYPES), quote)

    def html_style(self):
        rng = self.rng
        tag = rng.choice(["style", "style", "style", "STYLE"])
        if rng.random() < 0.06:
            return rng.choice(["<style></style>", "<style> </style>", "<style>x{margin-left:77px}</style>", "<style>:root(</style>"])
        return "<%s%s%s>%s</%s>" % (tag, rng.choice(["", " a=1", " media=print", " title=x"]), self.type_(), "".join(self.css()), tag)

    def html_link(self):
        rng = self.rng
        self.k += 1
        at = []
        if rng.random() < 0.85:
            at.append(rng.choice(["rel", "REL", "rel"]) + rng.choice(["=stylesheet", "=icon", '=" a  b "', "=''", "=É&amp;", ""]))
        if rng.random() < 0.85:
            at.append(rng.choice(["href", "HREF", "href"]) + rng.choice(["=u%d" % self.k, "='u %d'" % self.k, "=''", '="a&#10;b"', ""]))
        if rng.random() < 0.3:
            at.append(rng.choice(["xlink:href=no", "href=second", "rel=second", "type=text/css", "data-href=x", "hreflang=en", "xml:rel=x"]))
        rng.shuffle(at)
        return "<%s %s%s>" % (rng.choice(["link", "link", "link", "LINK", "base", "a"]), " ".join(at), rng.choice(["", "", " /"]))

    def html(self):
        rng = self.rng
        out = [rng.choice(["<!DOCTYPE html>", "", "<!doctype html><html>", "<!-- c -->"])]
        context = """<head> </head> <body> <table> <tr> <td> </table> <svg> </svg> <template> </template> <select> </select> <noscript>
            </noscript> <textarea> </textarea> <title> </title> <frameset> <b> <p> <i> </b> </p> </i> <div> </div> <math> </math>
            <foreignObject> <desc> <svg><desc> <html> </body> </html> <script> </script> <!--x--> <!-- --> x <caption> <object> </object>""".split()
        for _ in range(rng.randrange(2, 14)):
            r = rng.random()
            out.append(self.html_style() if r < 0.3 else self.html_link() if r < 0.55 else rng.choice(context) if r < 0.9 else
                       soup(rng, rng.randrange(1, 8)).replace("<style", "<stile").replace("<plaintext", "<p"))
        return "".join(out).encode(), self.sheets

    # XML
    def element(self, name, ns, at, content):
        rng = self.rng
        if ns is None:
            head, tail = "h:" + name, "h:" + name
        else:
            head, tail = name + (' xmlns="%s"' % ns if ns != "inherit" else ""), name
        return "<%s%s>%s</%s>" % (head, at, content, tail)

    def xml_style(self):
        rng = self.rng
        pieces = self.css()
        out = []
        for k, piece in enumerate(pieces):
            piece = piece.replace("&", "&amp;").replace("<", "&lt;")
            out.append("<![CDATA[%s]]>" % piece if rng.random() < 0.3 else piece)
            if k + 1 < len(pieces):
                out.append(rng.choice(["<b>7</b>", "<!-- 7 -->", "<?p 7?>", "<q><r/>7</q>", "<![CDATA[]]>", "<style xmlns=''>7</style>", ""]))
        # prefix h and the default name space are usually those of HTML
        return self.element("style" if rng.random() < 0.95 else "STYLE", rng.choice(["inherit"] * 6 + [None, None, XHTML, "", "urn:x"]),
                            self.type_() + rng.choice(["", "", "", ' h:type="text/plain"', ' q:type=""']), "".join(out))

    def xml_link(self):
        rng = self.rng
        self.k += 1
        at = []
        if rng.random() < 0.85:
            at.append(' rel="%s"' % rng.choice(["stylesheet", "", " a\tb ", "&lt;é", "&#10;"]))
        if rng.random() < 0.85:
            at.append(' href="%s"' % rng.choice(["u%d" % self.k, "", "u '%d'" % self.k]))
        if rng.random() < 0.4:
            at.append(rng.choice([' h:href="no"', ' q:rel="no"', ' HREF="no"', ' Rel="no"', ' xml:href="no"', ' type="text/css"']))
        rng.shuffle(at)
        return self.element("link" if rng.random() < 0.9 else rng.choice(["LINK", "a", "Link"]),
                            rng.choice(["inherit"] * 6 + [None, None, XHTML, "", "urn:x"]), "".join(at),
                            self.xml_content(1) if rng.random() < 0.2 else "")

    def xml_content(self, depth):
        rng = self.rng
        out = []
        for _ in range(rng.randrange(0, 6)):
            r = rng.random()
            out.append(self.xml_style() if r < 0.3 else self.xml_link() if r < 0.55 else rng.choice(["x", "<!--c-->", "<?p?>", "<![CDATA[<link/>]]>"])
                       if r < 0.7 or depth == 0 else
                       self.element(rng.choice(["div", "head", "body", "p", "svg"]), rng.choice(["inherit", "inherit", None, "urn:x", "", XHTML]), "",
                                    self.xml_content(depth - 1)))
        return "".join(out)

    def xml(self):
        rng = self.rng
        root = rng.choice(["html", "html", "x", "style", "link"])
        ns = rng.choice([XHTML, XHTML, XHTML, "", "urn:x"])
        content = self.xml_content(3)
        doc = '<%s xmlns="%s" xmlns:h="%s" xmlns:q="urn:q"%s>%s</%s>' % (
            root, ns, rng.choice([XHTML, XHTML, "urn:h"]), ' rel="root" href="r"' if rng.random() < 0.4 else "", content, root)
        return (rng.choice(["", '<?xml version="1.0"?>\n', "<!-- c -->"]) + doc + rng.choice(["", "<!-- c -->"])).encode(), self.sheets


def C30(c):
    rng = c.rng
    for name, mode, what, n in [("HTML documents", "dom", "html", c.n(1400, 5000)), ("XML documents", "domxml", "xml", c.n(900, 3500))]:
        made = [getattr(QueryGen(rng), what)() for _ in range(n)]
        recs = judge(c, name, [m[0] for m in made], mode, effects=[m[1] for m in made])
        c.cov["links"] = c.cov.get("links", 0) + sum(len(r["links"]) for r in recs)
        c.cov["documents_with_effective_sheets"] = c.cov.get("documents_with_effective_sheets", 0) + sum(r["effect"] > 0 for r in recs)
    c.assumptions.append("The operations that build the tree are those html5ever and xml-rs report.")
