"""An independent reader for PDF files, strict about syntax.

`read(data)` returns a Pdf with the structure of the file as a list of events (for the trace
specification PdfFile.tla), every number, name and string token as written, and the interpreted
content of each page.  Everything that is not valid syntax raises BadPdf."""
import re

WS = b"\0\t\n\x0c\r "
DELIM = b"()<>[]{}/%"


class BadPdf(Exception):
    pass


class Name(bytes):
    pass


class Num(float):
    raw = b""


class Ref(tuple):
    pass


class Kw(bytes):
    pass


class Lex:
    def __init__(self, data, pos=0, end=None, tokens=None):
        self.d, self.p = data, pos
        self.end = len(data) if end is None else end
        self.tokens = tokens  # list of (kind, raw, decoded)

    def ws(self):
        d = self.d
        while self.p < self.end:
            c = d[self.p]
            if c in WS:
                self.p += 1
            elif c == 0x25:
                while self.p < self.end and d[self.p] not in b"\r\n":
                    self.p += 1
            else:
                break

    def note(self, kind, raw, value):
        if self.tokens is not None:
            self.tokens.append((kind, bytes(raw), value))

    def obj(self):
        """The next object or keyword, None at the end"""
        self.ws()
        if self.p >= self.end:
            return None
        d, p = self.d, self.p
        c = d[p]
        if c == 0x2F:  # /
            q = p + 1
            while q < self.end and d[q] not in WS and d[q] not in DELIM:
                q += 1
            raw = d[p + 1:q]
            out = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == 0x23:
                    h = raw[i + 1:i + 3]
                    if len(h) != 2 or not re.fullmatch(rb"[0-9A-Fa-f]{2}", h):
                        raise BadPdf("bad # escape in name %r" % raw)
                    out.append(int(h, 16))
                    i += 3
                else:
                    out.append(raw[i])
                    i += 1
            self.p = q
            n = Name(bytes(out))
            self.note("name", raw, bytes(out))
            return n
        if c == 0x28:  # (
            depth, q = 1, p + 1
            out = bytearray()
            while True:
                if q >= self.end:
                    raise BadPdf("unterminated string")
                c = d[q]
                if c == 0x5C:
                    q += 1
                    c = d[q]
                    if c in b"nrtbf":
                        out.append({0x6E: 10, 0x72: 13, 0x74: 9, 0x62: 8, 0x66: 12}[c])
                    elif c in b"01234567":
                        m = re.match(rb"[0-7]{1,3}", d[q:q + 3]).group()
                        out.append(int(m, 8) & 255)
                        q += len(m) - 1
                    elif c == 13:
                        if d[q + 1:q + 2] == b"\n":
                            q += 1
                    elif c == 10:
                        pass
                    else:
                        out.append(c)
                elif c == 0x28:
                    depth += 1
                    out.append(c)
                elif c == 0x29:
                    depth -= 1
                    if depth == 0:
                        break
                    out.append(c)
                elif c == 13:
                    out.append(10)
                    if d[q + 1:q + 2] == b"\n":
                        q += 1
                else:
                    out.append(c)
                q += 1
            self.p = q + 1
            self.note("string", d[p:q + 1], bytes(out))
            return bytes(out)
        if d[p:p + 2] == b"<<":
            self.p = p + 2
            res = {}
            while True:
                self.ws()
                if d[self.p:self.p + 2] == b">>":
                    self.p += 2
                    return res
                k = self.obj()
                if not isinstance(k, Name):
                    raise BadPdf("dictionary key %r" % (k,))
                v = self.value()
                if k in res:
                    raise BadPdf("duplicate key %r" % k)
                res[bytes(k)] = v
        if c == 0x3C:
            q = d.find(b">", p)
            if q < 0 or q >= self.end:
                raise BadPdf("unterminated hex string")
            raw = d[p + 1:q]
            hexa = bytes(x for x in raw if x not in WS)
            if not re.fullmatch(rb"[0-9A-Fa-f]*", hexa):
                raise BadPdf("hex string %r" % raw[:40])
            if len(hexa) % 2:
                hexa += b"0"
            self.p = q + 1
            v = bytes.fromhex(hexa.decode())
            self.note("hex", d[p:q + 1], v)
            return v
        if c == 0x5B:
            self.p = p + 1
            res = []
            while True:
                self.ws()
                if self.p >= self.end:
                    raise BadPdf("unterminated array")
                if d[self.p] == 0x5D:
                    self.p += 1
                    return res
                res.append(self.value())
        if c in b")>]{}":
            raise BadPdf("unexpected %r at %d" % (chr(c), p))
        q = p
        while q < self.end and d[q] not in WS and d[q] not in DELIM:
            q += 1
        raw = d[p:q]
        self.p = q
        if re.fullmatch(rb"[+-]?(\d+\.?\d*|\.\d+)", raw):
            n = Num(raw)
            n.raw = bytes(raw)
            self.note("number", raw, float(n))
            return n
        if re.fullmatch(rb"[A-Za-z'\"][A-Za-z0-9*]*", raw):
            return Kw(raw)
        raise BadPdf("token %r at %d" % (bytes(raw[:40]), p))

    def value(self):
        v = self.obj()
        if isinstance(v, Kw):
            if v in (b"true", b"false", b"null"):
                return v
            raise BadPdf("unexpected keyword %r" % bytes(v))
        if v is None:
            raise BadPdf("unexpected end")
        if isinstance(v, Num) and v.raw.isdigit():
            m = re.compile(rb"[\0\t\n\x0c\r ]+(\d+)[\0\t\n\x0c\r ]+R(?![^\0\t\n\x0c\r ()<>\[\]{}/%])").match(self.d, self.p, self.end)
            if m:
                self.p = m.end()
                return Ref((int(v), int(m.group(1))))
        return v


def refs_in(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from refs_in(x)
    elif isinstance(v, list):
        for x in v:
            yield from refs_in(x)


class Pdf:
    pass


def read(data, content_tokens=True):
    pdf = Pdf()
    pdf.events = ev = []
    pdf.tokens = []
    objects = pdf.objects = {}
    m = re.match(rb"%PDF-1\.\d(\r\n|\n|\r)", data)
    if not m:
        raise BadPdf("header")
    ev.append(dict(e="header", start=0, end=m.end()))
    lex = Lex(data, m.end(), tokens=pdf.tokens)
    while True:
        lex.ws()
        start = lex.p
        t = lex.obj()
        if isinstance(t, Kw) and t == b"xref":
            break
        gen, kw = lex.obj(), lex.obj()
        if not (isinstance(t, Num) and t.raw.isdigit() and isinstance(gen, Num) and gen.raw.isdigit() and kw == b"obj"):
            raise BadPdf("expected an object at %d" % start)
        v = lex.value()
        lex.ws()
        stream = None
        declared = actual = -1
        if data[lex.p:lex.p + 6] == b"stream":
            if not isinstance(v, dict):
                raise BadPdf("stream without dictionary")
            p = lex.p + 6
            if data[p:p + 2] == b"\r\n":
                p += 2
            elif data[p:p + 1] == b"\n":
                p += 1
            else:
                raise BadPdf("stream keyword not followed by an end of line")
            length = v.get(b"Length")
            if not isinstance(length, Num) or not length.raw.isdigit():
                raise BadPdf("stream /Length %r" % (length,))
            declared = int(length)
            rest = re.compile(rb"(\r\n|\n|\r)?endstream").match(data, p + declared)
            if rest:
                actual = declared
                stream = data[p:p + declared]
                lex.p = rest.end()
            else:
                q = data.find(b"endstream", p)
                if q < 0:
                    raise BadPdf("no endstream")
                actual = q - p
                stream = data[p:q]
                lex.p = q + 9
        end = lex.obj()
        if end != b"endobj":
            raise BadPdf("expected endobj at %d, found %r" % (lex.p, end))
        ident = int(t)
        ev.append(dict(e="obj", id=ident, gen=int(gen), start=start, end=lex.p, declared=declared,
                       actual=actual, refs=sorted({r[0] for r in refs_in(v)}),
                       badgen=sum(1 for r in refs_in(v) if r[1] != 0)))
        objects[ident] = (v, stream)
    # Cross-reference table, one section, as PDF 1.4 files have
    x = start
    m = re.compile(rb"xref[ ]*(\r\n|\n|\r)").match(data, x)
    if not m:
        raise BadPdf("xref line")
    p = m.end()
    entries = []
    while True:
        m = re.compile(rb"(\d+) (\d+)[ ]*(\r\n|\n|\r)").match(data, p)
        if not m:
            break
        first, count = int(m.group(1)), int(m.group(2))
        p = m.end()
        for i in range(count):
            e = re.compile(rb"(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)").match(data, p)
            if not e:
                raise BadPdf("xref entry %d: %r" % (i, data[p:p + 20]))
            p += 20
            entries.append(dict(id=first + i, off=int(e.group(1)), gen=int(e.group(2)), inuse=e.group(3) == b"n"))
    lex.p = p
    if lex.obj() != b"trailer":
        raise BadPdf("no trailer")
    tr = lex.value()
    pdf.trailer = tr
    if lex.obj() != b"startxref":
        raise BadPdf("no startxref")
    sx = lex.obj()
    m = re.compile(rb"(\r\n|\n|\r)%%EOF[\r\n]*").match(data, lex.p)
    if not m or m.end() != len(data) or not isinstance(sx, Num):
        raise BadPdf("end of file")
    ev.append(dict(e="xref", start=x, entries=entries))
    size = tr.get(b"Size")
    root = tr.get(b"Root")
    ev.append(dict(e="trailer", size=int(size) if isinstance(size, Num) else -1,
                   root=root[0] if isinstance(root, Ref) else -1,
                   refs=sorted({r[0] for r in refs_in(tr)}), startxref=int(sx)))
    pdf.get = lambda v: objects.get(v[0], (None, None))[0] if isinstance(v, Ref) else v
    pdf.stream = lambda v: objects.get(v[0], (None, None))[1]
    pages(pdf, content_tokens)
    return pdf


def box(v):
    if not (isinstance(v, list) and len(v) == 4 and all(isinstance(x, Num) for x in v)):
        raise BadPdf("MediaBox %r" % (v,))
    a, b, c, d = v
    return min(a, c), min(b, d), max(a, c), max(b, d)


def pages(pdf, content_tokens=True):
    g = pdf.get
    root = g(pdf.trailer.get(b"Root"))
    if not isinstance(root, dict) or root.get(b"Type") != b"Catalog":
        raise BadPdf("no catalog")
    pdf.pages = []
    seen = set()

    def visit(ref, parent, inherited):
        if not isinstance(ref, Ref) or ref in seen:
            raise BadPdf("page tree node %r" % (ref,))
        seen.add(ref)
        node = g(ref)
        if not isinstance(node, dict):
            raise BadPdf("page tree node is missing")
        if parent is not None and node.get(b"Parent") != parent:
            raise BadPdf("wrong Parent in page tree")
        inherited = dict(inherited)
        for k in (b"Resources", b"MediaBox"):
            if k in node:
                inherited[k] = node[k]
        t = node.get(b"Type")
        if t == b"Pages":
            n = 0
            for kid in g(node.get(b"Kids")) or []:
                n += visit(kid, ref, inherited)
            if node.get(b"Count") != n:
                raise BadPdf("page tree Count is %s instead of %d" % (node.get(b"Count"), n))
            return n
        if t != b"Page":
            raise BadPdf("page tree node of type %r" % (t,))
        page = Pdf()
        page.ref = ref[0]
        page.box = box(g(inherited.get(b"MediaBox")))
        page.resources = g(inherited.get(b"Resources")) or {}
        contents = node.get(b"Contents")
        parts = contents if isinstance(contents, list) else [contents]
        page.content = b""
        for c in parts:
            if c is None:
                continue
            s = pdf.stream(c)
            if s is None:
                raise BadPdf("page content is not a stream")
            page.content += s + b"\n"
        page.content_ref = contents[0] if isinstance(contents, Ref) else -1
        interpret(pdf, page, content_tokens)
        pdf.pages.append(page)
        return 1

    pdf.page_count = visit(root.get(b"Pages"), None, {})


def mul(a, b):
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5])


STD = (0.75, 0.0, 0.0, -0.75, 0.0, 0.0)


class Item:
    """kind rect: x y w h; kind text: x y size glyphs font.  In CSS px from the top left corner of the page."""

    def __repr__(self):
        d = dict(self.__dict__)
        d.pop("raw", None)
        return repr(d)


def interpret(pdf, page, content_tokens=True):
    g = pdf.get
    toks = pdf.tokens if content_tokens else None
    lex = Lex(page.content, tokens=toks)
    ctm = (1.0, 0, 0, 1.0, 0, 0)
    color, alpha = (0.0, 0.0, 0.0), 1.0
    raw_color = None
    stack, args, path = [], [], []
    page.items = []
    intext = False
    font = fsize = tm = tlm = None
    x0, y0, x1, y1 = page.box
    page.width, page.height = (x1 - x0) / 0.75, (y1 - y0) / 0.75
    fonts = g(page.resources.get(b"Font")) or {}
    states = g(page.resources.get(b"ExtGState")) or {}

    def need(n, cls=Num):
        if len(args) != n or (cls and not all(isinstance(a, cls) for a in args)):
            raise BadPdf("operands %r" % (args,))

    def css(x, y):
        return (x - x0) / 0.75, (y1 - y) / 0.75

    while True:
        t = lex.obj()
        if t is None:
            break
        if not isinstance(t, Kw):
            args.append(t)
            continue
        if t == b"cm":
            need(6)
            ctm = mul(tuple(args), ctm)
        elif t == b"q":
            stack.append((ctm, color, alpha, font, fsize))
        elif t == b"Q":
            if not stack:
                raise BadPdf("Q without q")
            ctm, color, alpha, font, fsize = stack.pop()
        elif t == b"rg":
            need(3)
            color = tuple(float(a) for a in args)
            raw_color = [a.raw for a in args]
        elif t == b"g":
            need(1)
            color = (float(args[0]),) * 3
        elif t == b"gs":
            need(1, Name)
            if bytes(args[0]) not in states:
                raise BadPdf("missing graphics state %r" % args[0])
            st = g(states[bytes(args[0])])
            if b"ca" in st:
                alpha = float(st[b"ca"])
        elif t == b"re":
            need(4)
            path.append(list(args))
        elif t in (b"f", b"F", b"f*"):
            need(0)
            if not path:
                raise BadPdf("fill without path")
            for x, y, w, h in path:
                i = Item()
                i.kind = "rect"
                a = (x * ctm[0] + y * ctm[2] + ctm[4], x * ctm[1] + y * ctm[3] + ctm[5])
                b = ((x + w) * ctm[0] + (y + h) * ctm[2] + ctm[4], (x + w) * ctm[1] + (y + h) * ctm[3] + ctm[5])
                i.x, i.y = css(*a)
                bx, by = css(*b)
                i.w, i.h = bx - i.x, by - i.y
                i.raw = [n.raw for n in (x, y, w, h)] if ctm == STD and (x0, y1) == (0, 0) else None
                if i.raw:  # do not lose precision
                    i.x, i.y, i.w, i.h = float(x), float(y), float(w), float(h)
                i.color, i.alpha = color, alpha
                page.items.append(i)
            path = []
        elif t == b"n":
            path = []
        elif t == b"BT":
            if intext:
                raise BadPdf("nested BT")
            intext = True
            tm = tlm = (1.0, 0, 0, 1.0, 0, 0)
        elif t == b"ET":
            if not intext:
                raise BadPdf("ET without BT")
            intext = False
        elif t == b"Tf":
            if len(args) != 2 or not isinstance(args[0], Name) or not isinstance(args[1], Num):
                raise BadPdf("Tf operands")
            if bytes(args[0]) not in fonts:
                raise BadPdf("missing font %r" % args[0])
            font, fsize = fonts[bytes(args[0])], float(args[1])
        elif t == b"Tm":
            need(6)
            tm = tlm = tuple(args)
        elif t == b"Td":
            need(2)
            tm = tlm = mul((1.0, 0, 0, 1.0, args[0], args[1]), tlm)
        elif t == b"Tj":
            need(1, bytes)
            if not intext or font is None:
                raise BadPdf("Tj without BT or font")
            m = mul((fsize, 0, 0, fsize, 0, 0), tm)
            full = mul(m, ctm)
            i = Item()
            i.kind = "text"
            i.x, i.y = css(full[4], full[5])
            i.size = full[0] / 0.75
            i.ok = abs(full[3] - full[0]) <= 1e-6 * abs(full[0]) and full[1] == 0 and full[2] == 0
            if ctm == STD and (x0, y1) == (0, 0) and fsize == 1 and len(tm) == 6 and isinstance(tm[4], Num):
                i.x, i.y, i.size = float(tm[4]), float(tm[5]), float(tm[0])
                i.raw = [tm[0].raw, tm[3].raw, tm[4].raw, tm[5].raw]
            else:
                i.raw = None
            s = bytes(args[0])
            if len(s) % 2:
                raise BadPdf("odd number of bytes of two-byte codes")
            i.glyphs = [s[k] << 8 | s[k + 1] for k in range(0, len(s), 2)]
            i.font = font
            i.color, i.alpha = color, alpha
            page.items.append(i)
        else:
            raise BadPdf("operator %r" % bytes(t))
        args = []
    if args:
        raise BadPdf("operands without operator: %r" % (args,))
    if intext or stack or path:
        raise BadPdf("unfinished page content")


def font_info(pdf, ref):
    """What the PDF says about a font: (bytes of the font file, widths by glyph, glyph -> text)"""
    g = pdf.get
    f = g(ref)
    if not isinstance(f, dict) or f.get(b"Type") != b"Font" or f.get(b"Subtype") != b"Type0" \
            or f.get(b"Encoding") != b"Identity-H":
        raise BadPdf("font dictionary")
    (desc,) = g(f[b"DescendantFonts"])
    desc = g(desc)
    widths = {}
    w = list(g(desc.get(b"W")) or [])
    while w:
        first = w.pop(0)
        nxt = g(w.pop(0))
        if isinstance(nxt, list):
            for k, v in enumerate(nxt):
                widths[int(first) + k] = float(v)
        else:
            v = float(w.pop(0))
            for k in range(int(first), int(nxt) + 1):
                widths[k] = v
    descriptor = g(desc[b"FontDescriptor"])
    file_ref = descriptor[b"FontFile2"]
    meta, stream = pdf.objects[file_ref[0]]
    info = dict(file=stream, file_ref=file_ref[0], length1=int(g(meta[b"Length1"])), widths=widths,
                default_width=float(desc.get(b"DW", 1000)),
                name=bytes(f[b"BaseFont"]), names=[bytes(f[b"BaseFont"]), bytes(desc[b"BaseFont"]), bytes(descriptor[b"FontName"])],
                sysinfo=[bytes(g(desc[b"CIDSystemInfo"])[b"Registry"]), bytes(g(desc[b"CIDSystemInfo"])[b"Ordering"])],
                descriptor=descriptor,
                metrics=[float(g(x)) for x in g(descriptor[b"FontBBox"])]
                + [float(g(descriptor[b"Ascent"])), float(g(descriptor[b"Descent"]))])
    cmap = pdf.stream(f[b"ToUnicode"])
    info["cmap"] = read_tounicode(cmap)
    return info


def read_tounicode(data):
    """List of (glyph, text) in order, with the sizes of the blocks"""
    lex = Lex(data)
    args = []
    entries, blocks, ranges = [], [], []
    state = None
    while True:
        t = lex.obj()
        if t is None:
            break
        if isinstance(t, Kw):
            if t in (b"beginbfchar", b"beginbfrange", b"begincodespacerange"):
                if not args or not isinstance(args[-1], Num):
                    raise BadPdf("%s without count" % t.decode())
                state = int(args[-1])
                args = []
            elif t == b"endbfchar":
                if len(args) != 2 * state:
                    raise BadPdf("bfchar count %s, %d entries" % (state, len(args) // 2))
                blocks.append(state)
                for a, b in zip(args[::2], args[1::2]):
                    if len(a) != 2:
                        raise BadPdf("bfchar code %r" % a)
                    entries.append((a[0] << 8 | a[1], b.decode("utf-16-be")))
                args = []
            elif t == b"endbfrange":
                if len(args) != 3 * state:
                    raise BadPdf("bfrange count")
                blocks.append(state)
                for a, b, c in zip(args[::3], args[1::3], args[2::3]):
                    lo, hi = a[0] << 8 | a[1], b[0] << 8 | b[1]
                    for k in range(lo, hi + 1):
                        if isinstance(c, list):
                            entries.append((k, c[k - lo].decode("utf-16-be")))
                        else:
                            s = c.decode("utf-16-be")
                            entries.append((k, s[:-1] + chr(ord(s[-1]) + k - lo)))
                args = []
            elif t == b"endcodespacerange":
                ranges += list(zip(args[::2], args[1::2]))
                args = []
            else:
                args = []
        else:
            args.append(t)
    if (b"\0\0", b"\xff\xff") not in ranges:
        raise BadPdf("code space ranges %r" % ranges)
    return dict(entries=entries, blocks=blocks)
