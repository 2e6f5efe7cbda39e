"""C28: any input becomes a PDF (spec/Robust.tla, judged by spec/RobustTrace.tla)."""
import json, os, random, time
import vlib, pdfread
from vlib import Harness, tlc, write_ndjson

CFG = """SPECIFICATION Spec
CONSTANTS
  Length = %d
  Depth = 40
  Alphabet = "%s"
  Emit = TRUE
  Exact = %s
CHECK_DEADLOCK FALSE
%s"""
PATIENCE = 60000


def enumerate_(c, alphabet, length):
    """All inputs of up to so many pieces"""
    res = tlc("Robust", CFG % (length, alphabet, "FALSE", "INVARIANT Export OneRoot\nPROPERTY Answered\n"), c.work)
    if not res.ok:
        raise vlib.ToolError("the specification contradicts itself:\n" + res.out[-2500:])
    c.add_tlc(res, "%s, all inputs of up to %d pieces" % (alphabet, length))
    return [json.loads(x)["pieces"] for x in res.prints]


def simulate(c, alphabet, length, num):
    """Random inputs of so many pieces"""
    res = tlc("Robust", CFG % (length, alphabet, "TRUE", "INVARIANT Export\nCONSTRAINT Full\n"), c.work, workers=1,
              extra=("-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(c.seed)))
    if not res.ok:
        raise vlib.ToolError("simulation failed:\n" + res.out[-2500:])
    return [json.loads(x)["pieces"] for x in res.prints]


def xml(c, alphabet, length, num=None):
    """XML documents of so many tokens, and what it takes to close them: ("sound" or "unsound", source)"""
    if num is None:
        res = tlc("Robust", CFG % (length, alphabet, "FALSE", "INVARIANT Export OneRoot\nPROPERTY Answered\n"), c.work)
    else:
        res = tlc("Robust", CFG % (length, alphabet, "TRUE", "INVARIANT Export OneRoot\nCONSTRAINT Full\n"), c.work, workers=1,
                  extra=("-simulate", "num=%d" % num, "-depth", str(length + 2), "-seed", str(c.seed)))
    if not res.ok:
        raise vlib.ToolError("the specification contradicts itself:\n" + res.out[-2500:])
    c.add_tlc(res, "%s, %s %d tokens" % (alphabet, "all documents of up to" if num is None else "random documents of", length))
    out = []
    for d in map(json.loads, res.prints):
        source = "".join(d["pieces"])
        out.append((d["form"], source))
        if d["closing"]:
            out.append(("sound", source + "".join(d["closing"])))
    return out


BODY = "<p id=i class='a b'>words <b a=b>of <i>a</i></b> text<div><a href=x>y</a><p></div><br>z"


def from_css(rng, pieces):
    text = "".join(pieces)
    forms = ["<style>%s</style>%s" % (text.replace("</style", ""), BODY)]
    if rng.random() < .5:
        forms.append("<style>p{%s}</style>%s" % (text, BODY))
    if rng.random() < .5:
        forms.append('<p style="%s">words<b style="%s">of</b>' % ((text.replace("&", "&amp;").replace('"', "&quot;"),) * 2))
    return forms


def from_declarations(rng, pieces):
    n = rng.randint(1, 5)
    styles = [[] for _ in range(n)]
    for p in pieces:
        rng.choice(styles).append(p)
    out, close = "", ""
    for s in styles:
        tag = rng.choice(["div", "p", "b", "span", "html", "body", "div"]) if rng.random() < .9 else "br"
        if tag in ("html", "body"):
            out += "<%s style='%s'>" % (tag, "".join(s))
        else:
            out += rng.choice(["", "text "]) + "<%s style='%s'>" % (tag, "".join(s)) + rng.choice(["", "two words", "x"])
            close = rng.choice(["", "</%s>" % tag, "</%s> after" % tag]) + close
    return [out + close]


def deep(n):
    """Deeply nested things that are no elements, and large things"""
    yield from ("<style>p" + "{" * n + "</style>x", "<style>p{width:" + "(" * n + "</style>x", "<style>" + "[" * n + "]" * n + "{}</style>x",
                "<style>" + ":not(" * n + "a" + ")" * n + "{color:red}</style>x", "<style>" + "a," * n + "p{color:red}</style><p>x",
                "<style>" + "a " * n + "{color:red}</style><p><a>x", "<style>" + "a>" * n + "p{color:red}</style><p>x",
                "<style>p" + ".a" * n + "{color:red}</style><p class=a>x", "<style>" + "@media all{" * n + "p{color:red}" + "}" * n + "</style><p>x",
                "<style>" + "p{color:red}" * n + "</style><p>x", "<style>p{" + "color:red;" * n + "}</style><p>x",
                "<p style='" + "color:red;" * n + "'>x", "<p style='" + "{" * n + "'>x", "<p style='" + "/*" * n + "'>x",
                "x" * n, "x " * n, " " * n, "<br>" * n, "<p>x" * n, "<b></b>" * n, "x<b>y</b>" * n, "<!-- -->" * n, "<!--" * n, "&" * n, "&amp;" * n,
                "</p>" * n, "</div>" * n, "<" * n, "<p " + "a=b " * n + ">x", "<p " + "".join("a%d=b " % k for k in range(n // 4)) + ">x",
                "<p class='" + "a " * n + "'>x", "<style>" * n, "<style></style>" * n, "<tr>" * n, "\0" * n, "é" * n, "\U0001f600" * n, "­" * n,
                "<div>x</div>" * n, "<div style=position:absolute>x</div>" * n, "<i style=position:relative>x</i>" * n,
                "<div style='position:absolute;top:0;bottom:0'></div>" * n, "<div style=display:none>x</div>" * n)


STRINGS = ["", "a", "A", "-", "1", "é", "éa", "aé", "İ", "ß", "中", "\U0001f600", "a\U0001f600", "\u0301", "\ufeff", "\u2028", "\u00a0", "\u0085", " ", " a", "a ", "a b",
           "\t", "\n", "\x0c", "-a", "a-é", "\0", "\ufffd", "\ufffe", "\x7f", "\x01", "\u202e", "a" * 300, "é" * 40, "--", "\u200d", "\u3000", "\u1680", "ﬁ", "\u0131"]


def odd_strings(rng):
    """Strings of every kind as attributes, classes, identifiers and texts, and as what selectors compare with"""
    def quoted(x):
        return '"' + "".join("\\%x " % ord(k) if k in '"\\\n\0' or rng.random() < .1 else k for k in x) + '"'

    def ident(x):
        return "".join(k if k.isalpha() and rng.random() < .8 else "\\%x " % ord(k) for k in x) or "x"

    def attribute(x):
        return "'" + x.replace("&", "&amp;").replace("'", "&#39;") + "'"
    wanted = rng.sample(STRINGS, rng.randint(1, 4))
    given = rng.sample(STRINGS, rng.randint(1, 4)) + wanted
    rules = ""
    for x in wanted:
        rules += rng.choice(["[t%s=%s%s]" % (op, quoted(x), rng.choice(["", " i", " s"])) for op in ["", "~", "|", "^", "$", "*"]] + [
            "[%s]" % ident(x), "." + ident(x), "#" + ident(x), ident(x), ":not(.%s)" % ident(x), "p ." + ident(x), "*|" + ident(x)])
        rules += "{color:red;%s:%s;content:%s}" % (ident(x), ident(x), quoted(x))
    body = "".join("<p t=%s class=%s id=%s style=%s href=%s>%s<b t=%s>%s</b>" % (*[attribute(rng.choice(given)) for _ in range(5)], rng.choice(given),
                                                                                 attribute(rng.choice(given)), rng.choice(given)) for _ in range(3))
    return "<style type=%s>%s</style><link rel=%s href=%s>%s" % (attribute(rng.choice(["", "", "text/css"] + given)), rules,
                                                                 attribute(rng.choice(given)), attribute(rng.choice(given)), body)


def mutate(rng, source):
    d = bytearray(source)
    for _ in range(rng.choice([1, 1, 2, 4, 10])):
        if not d:
            break
        k = rng.randrange(len(d))
        x = rng.random()
        if x < .3:
            d[k] = rng.randrange(256)
        elif x < .5:
            del d[k:k + rng.randint(1, 8)]
        elif x < .7:
            d[k:k] = d[rng.randrange(len(d)):][:rng.randint(1, 12)]
        elif x < .85:
            d[k:k] = rng.choice([b"<", b">", b"'", b'"', b"&", b"{", b"}", b";", b"\0", b"\xff", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\\", b"/*", b"<!--"])
        else:
            j = rng.randrange(len(d))
            d[min(j, k):max(j, k)] = d[min(j, k):max(j, k)][::-1]
    return bytes(d)


BASES = [
    b"<!DOCTYPE html><title>x</title><style>body { font-size: 12px; margin: 8px } .a > b { color: #f00; display: inline }</style>"
    b"<p class=a>Some <b>bold</b> text <i style='position: relative; top: 5px'>shifted</i><div style=\"position: absolute; left: 10%; width: 50px\">box</div>",
    b"<table><caption>c</caption><tr><td>1<td>2<tr><th colspan=2>x</table><select><option>a<option>b</select><ul><li>x<li>y</ul>",
    b"<html xmlns='http://www.w3.org/1999/xhtml'><head><style>p:nth-child(2n+1){border:1px solid red}</style></head>"
    b"<body><p>a<!-- b --></p><svg xmlns='http://www.w3.org/2000/svg'><style>p{color:red}</style></svg><p xml:lang='en'>&amp;c&#xe9;</p></body></html>",
]


class Runs:
    def __init__(self, c):
        self.c = c
        self.h = Harness(vlib.build(), timeout=PATIENCE / 1000 + 30)
        self.traces, self.sources = [], []

    def batch(self, sources, form="html", judge_time=True):
        """Many inputs in one call, singly again if something goes wrong"""
        sources = [s.encode("utf8", "surrogatepass") if isinstance(s, str) else s for s in sources]
        if self.c.seen_failure:
            return
        t = time.time()
        try:
            parts = self.h.call("html" if form == "html" else "xml", *sources)
            answers = [p for p in parts]
            if len(answers) != len(sources):
                raise vlib.ToolError("%d answers for %d inputs" % (len(answers), len(sources)))
        except Harness.Died as e:
            if len(sources) == 1:
                self.note(sources[0], form, "the process died or did not answer: %s" % e, None, PATIENCE + 1)
                self.c.seen_failure = True
            else:
                for s in sources:
                    self.batch([s], form)
            return
        ms = round((time.time() - t) * 1000 / len(sources))
        for s, (tag, payload) in zip(sources, answers):
            self.note(s, form, tag, payload, ms)

    def note(self, source, form, tag, payload, ms):
        rec = dict(form=form, answer="", pages=0, w=0, h=0, ms=ms)
        if tag == "P":
            rec["answer"] = "panic: " + payload.decode("utf8", "replace")[:200]
        elif tag == "L":
            rec["answer"] = "refused"
        elif tag == "B":
            try:
                pdf = pdfread.read(payload)
                rec.update(answer="pdf", pages=len(pdf.pages))
                if pdf.pages:
                    rec.update(w=round(pdf.pages[0].width), h=round(pdf.pages[0].height))
            except (pdfread.BadPdf, KeyError, ValueError, IndexError, TypeError) as e:
                rec["answer"] = "bad PDF: %s %s" % (type(e).__name__, e)
        else:
            rec["answer"] = tag
        self.traces.append(rec)
        self.sources.append(source)
        key = "%s: %s" % (form, rec["answer"][:30])
        d = self.c.cov.setdefault("answers", {})
        d[key] = d.get(key, 0) + 1

    def judge(self, name):
        c = self.c
        path = os.path.join(c.work, "runs.ndjson")
        write_ndjson(path, self.traces)
        res = tlc("RobustTrace", 'SPECIFICATION Spec\nCONSTANTS\n  TraceFile = "%s"\n  Patience = %d\nINVARIANT Conforms\n' % (path, PATIENCE),
                  c.work, coverage=False, heap="12g")
        c.add_tlc(res, name)
        if not res.ok:
            k = int(vlib.last_state(res.out)["t"]) - 1
            s = self.sources[k]
            c.violation("%s: %s: %s\ninput, %d bytes: %r" % (name, self.traces[k]["form"], self.traces[k]["answer"], len(s), s[:1500]),
                        dict(source=s[:100000], trace=self.traces[k]))
        c.cov["traces_validated_against_impl"] += len(self.traces)
        c.sample("%s: %r" % (name, self.sources[len(self.sources) // 2][:200]))
        self.traces, self.sources = [], []


def C28(c):
    rng = c.rng
    c.seen_failure = False
    runs = Runs(c)

    def groups(sources, form="html", n=40):
        for k in range(0, len(sources), n):
            runs.batch(sources[k:k + n], form)
    # All short inputs, and long ones
    short = ["".join(x) for x in enumerate_(c, "markup", 2)]
    groups(short if c.thorough else rng.sample(short, 1500))
    groups(["".join(x) for x in simulate(c, "markup", 8, c.n(400, 10000))])
    groups(["".join(x) for x in simulate(c, "markup", 40, c.n(200, 6000))], n=10)
    runs.judge("markup")
    css = [s for x in enumerate_(c, "css", 2) for s in from_css(rng, x)]
    groups(css if c.thorough else rng.sample(css, 1200))
    groups([s for x in simulate(c, "css", 6, c.n(300, 10000)) for s in from_css(rng, x)])
    groups([s for x in simulate(c, "css", 30, c.n(250, 8000)) for s in from_css(rng, x)])
    runs.judge("style sheets")
    pairs = [s for x in enumerate_(c, "declarations", 2) for s in from_declarations(rng, x)]
    groups(pairs if c.thorough else rng.sample(pairs, 1000))
    groups([s for x in simulate(c, "declarations", 6, c.n(400, 10000)) for s in from_declarations(rng, x)])
    groups([s for x in simulate(c, "declarations", 14, c.n(300, 8000)) for s in from_declarations(rng, x)])
    runs.judge("declarations")
    # Bytes
    groups([mutate(rng, rng.choice(BASES)) for _ in range(c.n(400, 15000))])
    groups([bytes(rng.randrange(256) for _ in range(rng.randint(0, 60))) for _ in range(c.n(100, 3000))])
    groups([mutate(rng, BASES[2]) for _ in range(c.n(300, 10000))], "xml")
    groups([BASES[2][:n] for n in range(0, len(BASES[2]), c.n(4, 1))], "xml")
    groups([b[:n] for b in BASES for n in range(len(b))] if c.thorough else [b[:rng.randrange(len(b))] for b in BASES for _ in range(20)])
    runs.judge("bytes")
    groups([odd_strings(rng) for _ in range(c.n(1200, 20000))])
    runs.judge("odd strings")
    # XML that is well-formed, and not
    docs = xml(c, "xml", 3) + xml(c, "xml soup", 2)
    if not c.thorough:
        docs = rng.sample(docs, 1500)
    docs += xml(c, "xml", 8, c.n(300, 8000)) + xml(c, "xml", 30, c.n(200, 6000)) + xml(c, "xml soup", 5, c.n(200, 4000))
    for form in ("sound", "unsound"):
        groups([s for f, s in docs if f == form], form)
    runs.judge("XML")
    for s in deep(c.n(1000, 4000)):
        runs.batch([s])
    # 40 levels of every kind of element
    for tag in ["div", "span", "b", "p", "a", "i style=position:relative", "div style=position:absolute", "div style=display:flow-root", "b style=display:block",
                "div style=display:inline", "b style=display:contents", "ul><li", "table><tr><td", "svg", "template", "button", "font", "div style=padding:1e30px",
                "div style=width:50%", "div style=margin-top:1e38px"]:
        n = 40 // (tag.count(">") + 1)
        runs.batch([("<%s>" % tag) * n, ("<%s>x" % tag) * n])
    runs.judge("large and deep")
    runs.h.close()
