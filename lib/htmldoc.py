"""Abstract documents: built by generators, written as HTML for the real code and as records for
the specification (spec/Render.tla)."""
import random

# ------------------------------------------------------------------ CSS


class Tok:
    """One component value: text as written, and what it stands for"""

    def __init__(self, text, t, s="", n=0, a=0):
        self.text, self.t, self.s, self.n, self.a = text, t, s, n, a

    def rec(self):
        return dict(t=self.t, s=self.s, n=self.n, a=self.a)


def num_text(v):
    """v in thousandths"""
    sign, v = ("-", -v) if v < 0 else ("", v)
    s = "%d.%03d" % divmod(v, 1000)
    return sign + s.rstrip("0").rstrip(".")


def px(v):
    v = round(v * 1000)
    if abs(v) >= 2000000000:
        v -= v % 1000
        return Tok(num_text(v) + "px", "dim", "wholepx", v // 1000)
    return Tok(num_text(v) + "px", "dim", "px", v)


def em(v):
    v = round(v * 1000)
    return Tok(num_text(v) + "em", "dim", "em", v)


def pct(v):
    v = round(v * 10) * 100
    return Tok(num_text(v) + "%", "pct", "", v)


def number(v):
    v = round(v * 1000)
    return Tok(num_text(v), "num", "", v)


def ident(s):
    return Tok(s, "ident", s.lower())


AUTO = ident("auto")


def rgb(r, g, b, a=None, form=0):
    """a: 0 to 1 in hundredths"""
    n = r * 65536 + g * 256 + b
    if a is not None:
        # halves are rounded up by the parser; keep away from them
        return Tok("rgba(%d, %d, %d, %s)" % (r, g, b, num_text(round(a * 1000))), "color", "", n, int(a * 255 + 0.5))
    if form == 1:
        return Tok("rgb(%d,%d,%d)" % (r, g, b), "color", "", n, 255)
    if form == 2 and all(c % 17 == 0 for c in (r, g, b)):
        return Tok("#%x%x%x" % (r // 17, g // 17, b // 17), "color", "", n, 255)
    if form == 3:
        return Tok("#%02X%02X%02X" % (r, g, b), "color", "", n, 255)
    return Tok("#%02x%02x%02x" % (r, g, b), "color", "", n, 255)


NAMED = dict(red=(255, 0, 0), lime=(0, 255, 0), blue=(0, 0, 255), teal=(0, 128, 128), orange=(255, 165, 0),
             rebeccapurple=(102, 51, 153), white=(255, 255, 255), gray=(128, 128, 128))


def named(s):
    r, g, b = NAMED[s.lower()]
    return Tok(s, "color", "", r * 65536 + g * 256 + b, 255)


TRANSPARENT = Tok("transparent", "color", "", 0, 0)


def other(text):
    return Tok(text, "other")


class Decl:
    def __init__(self, p, *toks, imp=False, text=None):
        self.p, self.toks, self.imp, self.raw = p, toks, imp, text

    def text(self, rng=None):
        if self.raw is not None:
            return self.raw
        p = self.p
        if rng and rng.random() < 0.05:
            p = p.upper()
        imp = " !important" if self.imp else ""
        if imp and rng:
            imp = rng.choice([" !important", "!important", " ! important", " !IMPORTANT", " !/**/ Important"])
        return "%s: %s%s" % (p, " ".join(t.text for t in self.toks), imp)

    def rec(self):
        return dict(p=self.p.lower(), v=[t.rec() for t in self.toks], imp=self.imp)


def decls_text(ds, rng=None):
    return "; ".join(d.text(rng) for d in ds)


# ------------------------------------------------------------------ selectors


class Simple:
    """o: the name as written (s: in lower case), for elements that are not HTML"""

    def __init__(self, text, k, s="", op="", v="", ci=False, n1=0, n2=0, sub=(), o=""):
        self.text, self.k, self.s, self.op, self.v, self.ci, self.o = text, k, s, op, v, ci, o
        self.n1, self.n2, self.sub = n1, n2, list(sub)

    def rec(self):
        return dict(k=self.k, s=self.s, o=self.o, op=self.op, v=[ord(c) for c in self.v], ci=self.ci, n1=self.n1, n2=self.n2,
                    sub=[x.rec() for x in self.sub])


def css_name(s):
    """A name as a CSS identifier"""
    out = ""
    for i, c in enumerate(s):
        if c.isdigit() and (i == 0 or (i == 1 and s[0] == "-")):
            out += "\\%x " % ord(c)
        elif c in "\t\n\f\r ":
            out += "\\%x " % ord(c)
        elif c.isalnum() or c in "_-" or ord(c) >= 128:
            out += c if s != "-" else "\\-"
        else:
            out += "\\" + c
    return out


def type_(tag, prefix=""):
    """prefix "*|": any namespace; "|": no namespace, which no element of an HTML document is in"""
    if prefix == "|":
        return Simple("|" + tag, "never")
    return Simple(prefix + tag, "type", tag.lower(), o=tag)


def any_(prefix=""):
    return Simple(prefix + "*", "*")


def class_(c):
    return Simple("." + css_name(c), "class", c)


def id_(i):
    return Simple("#" + css_name(i), "id", i)


def attr(name, op="has", v="", ci=False, quote='"', prefix=""):
    if op == "has":
        return Simple("[%s%s]" % (prefix, name), "attr", name.lower(), "has", o=name, n1=int(prefix == "*|"))
    text = v.replace("\\", "\\\\").replace(quote, "\\" + quote).replace("\n", "\\a ").replace("\f", "\\c ") if quote else css_name(v)
    return Simple("[%s%s%s%s%s%s%s]" % (prefix, name, op, quote, text, quote, " i" if ci else ""), "attr", name.lower(),
                  op, v, ci, o=name, n1=int(prefix == "*|"))


def pseudo(name):
    return Simple(":" + name, name)


def nth(kind, a, b, text=None):
    return Simple(":%s(%s)" % (kind, text or "%dn%+d" % (a, b)), kind, n1=a, n2=b)


def not_(x):
    return Simple(":not(%s)" % x.text, "not", sub=[x])


class Sel:
    """parts: [(combinator or "", [simple, ...]), ...] from left to right"""

    def __init__(self, *parts):
        self.parts = parts

    def text(self):
        return "".join({"": "", " ": " ", ">": " > ", "+": " + ", "~": " ~ "}[c] + "".join(x.text for x in simple)
                       for c, simple in self.parts)

    def rec(self):
        res = []
        for i in range(len(self.parts) - 1, -1, -1):
            # the combinator to the right of this compound
            comb = self.parts[i + 1][0] if i + 1 < len(self.parts) else ""
            res.append(dict(comb=comb, simple=[x.rec() for x in self.parts[i][1]]))
        return res


class Rule:
    def __init__(self, sels, decls):
        self.sels, self.decls = list(sels), list(decls)

    def text(self, rng=None):
        return "%s { %s }" % (", ".join(s.text() for s in self.sels), decls_text(self.decls, rng))

    def rec(self):
        return dict(sels=[s.rec() for s in self.sels], decls=[d.rec() for d in self.decls])


class Junk:
    """Something in a style sheet that has no effect"""

    def __init__(self, text):
        self.raw = text

    def text(self, rng=None):
        return self.raw

    def rec(self):
        return None


# ------------------------------------------------------------------ documents


class El:
    def __init__(self, tag, *ch, cls=(), id="", attrs=(), style=(), raw_style=None, html=True):
        self.tag, self.ch, self.cls, self.id, self.html = tag, list(ch), list(cls), id, html
        self.attrs, self.style, self.raw_style = dict(attrs), list(style), raw_style
        self.cls_raw = None  # the class attribute as written; its words are cls

    def class_text(self):
        return self.cls_raw if self.cls_raw is not None else " ".join(self.cls)


class Sheet(El):
    """A style element; active: whether its type makes it a style sheet"""

    def __init__(self, *rules, attrs=(), active=True):
        super().__init__("style", attrs=attrs)
        self.rules, self.active = list(rules), active


class Text:
    def __init__(self, s):
        self.s = s


class Comment:
    def __init__(self, s="c"):
        self.s = s


def esc(s):
    # (a carriage return as such would be taken for the end of a line)
    return s.replace("&", "&amp;").replace("<", "&lt;").replace("\r", "&#13;")


FOREIGN_ATTRS = ["xlink:%s" % x for x in "actuate arcrole href role show title type".split()] + ["xml:lang", "xml:space"]
VOID = {"hr", "br", "img", "input", "embed", "area", "base", "link", "meta", "param", "source", "track"}


class Doc:
    """sheets: list of lists of Rule/Junk, each one style element in the head (more may be anywhere)"""

    def __init__(self, body, sheets=(), html_style=(), extra_head=(), before=""):
        self.before = before  # comments before the root element
        self.head = El("head", *[s if isinstance(s, Sheet) else Sheet(*s) for s in sheets], *extra_head)
        self.body = body
        self.html = El("html", self.head, body, style=html_style)
        self.swap = False

    def source(self, rng=None, css=None):
        out = ["<!DOCTYPE html>" + self.before]

        def put(n):
            if isinstance(n, Text):
                out.append(esc(n.s))
            elif isinstance(n, Comment):
                out.append("<!--%s-->" % n.s)
            else:
                a = ""
                if n.id:
                    a += ' id="%s"' % esc(n.id).replace('"', "&quot;")
                if n.cls or n.cls_raw is not None:
                    a += ' class="%s"' % esc(n.class_text()).replace('"', "&quot;")
                for k, v in n.attrs.items():
                    a += ' %s="%s"' % (k, esc(v).replace('"', "&quot;"))
                if n.raw_style is not None:
                    a += ' style="%s"' % esc(n.raw_style).replace('"', "&quot;")
                elif n.style:
                    a += ' style="%s"' % esc(decls_text(n.style, rng)).replace('"', "&quot;")
                out.append("<%s%s>" % (n.tag, a))
                if isinstance(n, Sheet):
                    out.append("\n".join(r.text(rng) for r in n.rules))
                for c in n.ch:
                    put(c)
                if n.tag not in VOID:
                    out.append("</%s>" % n.tag)

        put(self.html)
        return "".join(out)

    def xml_source(self, rng):
        """The same document as XML; None if there is no such XML document"""
        out = [rng.choice(["", "", '<?xml version="1.0" encoding="UTF-8"?>', "<!DOCTYPE html>"]) + self.before]
        chars = {'"': "&quot;", "<": "&lt;", "&": "&amp;", ">": "&gt;", "\r": "&#13;"}

        def text(s, attr=False):
            ws = {"\n": "&#10;", "\t": "&#9;"} if attr else {}
            return "".join(chars.get(x) or ws.get(x, x) for x in s)

        def content(s):
            if "]]>" not in s and "\r" not in s and rng.random() < 0.15:
                return "<![CDATA[%s]]>" % s
            return text(s)

        def put(n, html):
            if isinstance(n, Text):
                out.append(content(n.s))
            elif isinstance(n, Comment):
                if "--" in n.s or n.s[-1:] == "-":
                    raise ValueError
                out.append("<!--%s-->" % n.s)
            else:
                tag = n.tag.lower() if n.html else n.tag
                attrs = dict(n.attrs)
                if n.html and any(":" in k for k in attrs):
                    raise ValueError
                if n.id:
                    attrs["id"] = n.id
                if n.cls or n.cls_raw is not None:
                    attrs["class"] = n.class_text()
                if n.raw_style is not None:
                    attrs["style"] = n.raw_style
                elif n.style:
                    attrs["style"] = decls_text(n.style, rng)
                items = [((k.lower() if n.html else k), v) for k, v in attrs.items()]
                if n.html != html:
                    items.insert(0, ("xmlns", "http://www.w3.org/1999/xhtml" if n.html else "http://www.w3.org/2000/svg"))
                if n is self.html:
                    items.append(("xmlns:xlink", "http://www.w3.org/1999/xlink"))
                out.append("<%s%s" % (tag, "".join(' %s="%s"' % (k, text(v, True)) for k, v in items)))
                inner = "\n".join(r.text(rng) for r in n.rules) if isinstance(n, Sheet) else ""
                if not n.ch and not inner and rng.random() < 0.5:
                    out.append("/>")
                    return
                out.append(">" + content(inner))
                for c in n.ch:
                    put(c, n.html)
                out.append("</%s>" % tag)

        try:
            put(self.html, None)
        except ValueError:
            return None
        src = "".join(out)
        if any(ord(x) < 32 and x not in "\t\n" or 0x7f <= ord(x) < 0xa0 for x in src):
            return None
        return src

    def rec(self):
        nodes, rules = [], []

        def put(n, parent):
            i = len(nodes) + 1
            rec = dict(k="e", p=parent, html=True, tag="", cls=[], id="", attrs=[], style=[], ch=[], txt=[])
            nodes.append(rec)
            if isinstance(n, Text):
                rec.update(k="t", txt=[ord(c) for c in n.s])
            elif isinstance(n, Comment):
                rec.update(k="c")
            else:
                # x: whether the attribute is in a namespace, which foreign elements have by these prefixes
                attrs = [dict(n=k.lower() if n.html else k, v=[ord(c) for c in v], x=False) for k, v in n.attrs.items()]
                for a in attrs if not n.html else ():
                    if a["n"] in FOREIGN_ATTRS:
                        a.update(n=a["n"].split(":")[1], x=True)
                if n.id:
                    attrs.append(dict(n="id", v=[ord(c) for c in n.id], x=False))
                if n.cls or n.cls_raw is not None:
                    attrs.append(dict(n="class", v=[ord(c) for c in n.class_text()], x=False))
                rec.update(html=n.html, tag=n.tag.lower() if n.html else n.tag, cls=n.cls, id=n.id, attrs=attrs, style=[d.rec() for d in n.style])
                kids = n.ch
                if isinstance(n, Sheet):
                    kids = [Text("x")] if n.rules else []
                    if n.active:
                        rules.extend(r.rec() for r in n.rules)
                rec["ch"] = [put(c, i) for c in kids]
            return i

        put(self.html, 0)
        rules = [r for r in rules if r is not None]
        return dict(nodes=nodes, rules=rules, swap=self.swap, exact=exact(nodes, rules), error="", items=[])


def exact(nodes, rules):
    """Whether single precision computes all lengths without rounding (but for the heights of lines)"""
    for d in [d for x in nodes for d in x["style"]] + [d for r in rules for d in r.get("decls", ())]:
        for tok in d["v"]:
            if tok["t"] == "pct" or tok["t"] == "dim" and (tok["s"] != "px" or tok["n"] % (1000 if d["p"] == "font-size" else 125)):
                return False
    return True


def merge_texts(n):
    """Adjacent texts are one text node after parsing"""
    if isinstance(n, El):
        ch = []
        for c in n.ch:
            merge_texts(c)
            if isinstance(c, Text) and ch and isinstance(ch[-1], Text):
                ch[-1] = Text(ch[-1].s + c.s)
            elif isinstance(c, Text) and c.s == "":
                pass
            else:
                ch.append(c)
        n.ch = ch
    return n


# ------------------------------------------------------------------ what was painted


def px_units(v, unit=10240):
    u = v * unit
    return max(-2000000000, min(2000000000, round(u)))


def items_of(pdf, unit=10240):
    res = []
    for i in pdf.pages[0].items:
        c = [round(x * 255) for x in i.color]
        o = dict(k=i.kind, x=px_units(i.x, unit), y=px_units(i.y, unit), c=c[0] * 65536 + c[1] * 256 + c[2], a=round(i.alpha * 255),
                 w=0, h=0, g=[])
        if i.kind == "rect":
            o.update(w=px_units(i.w, unit), h=px_units(i.h, unit))
        else:
            o.update(w=px_units(i.size, unit), g=list(i.glyphs))
        res.append(o)
    return res
