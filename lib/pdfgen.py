"""Small PDF files of our own, for reading."""


def num(x):
    s = "%.4f" % x
    return s.rstrip("0").rstrip(".") or "0"


def make(pages, shape=lambda n: [[k] for k in range(n)], inherit=False, info=None):
    """pages: (width, height, content) and what else there is: media, crop, rotate, notes (annotations). shape(n): nested lists of page indices in order (the page tree).
    info: the entries of the information dictionary, if there is one.
    With inherit, a node of the tree gives the size of its first page and pages of that size do not repeat it."""
    objs = {}

    def new(body=None):
        objs[len(objs) + 1] = body
        return len(objs)
    catalog, root, font = new(), new(), new("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
    objs[catalog] = "<< /Type /Catalog /Pages %d 0 R >>" % root

    def first(node):
        while isinstance(node, list):
            if not node:
                return None
            node = node[0]
        return node

    def build(node, parent, given):
        """Returns (object, number of pages)"""
        if isinstance(node, list):
            n = root if parent is None else new()
            box = None
            if inherit and first(node) is not None:
                box = pages[first(node)][:2]
            kids = [build(k, n, box or given) for k in node]
            count = sum(k[1] for k in kids)
            objs[n] = "<< /Type /Pages /Kids [%s] /Count %d%s%s%s >>" % (
                " ".join("%d 0 R" % k[0] for k in kids), count,
                " /Parent %d 0 R" % parent if parent else "",
                " /MediaBox [0 0 %s %s]" % (num(box[0]), num(box[1])) if box else "",
                " /Resources << /Font << /F %d 0 R >> >>" % font if parent is None else "")
            return n, count
        w, h, content = pages[node][:3]
        more = pages[node][3] if len(pages[node]) > 3 else {}
        data = content.encode("latin1")
        stream = new("<< /Length %d >>\nstream\n%s\nendstream" % (len(data), content))
        n = new()
        box = "" if given == (w, h) and "media" not in more else " /MediaBox [%s]" % " ".join(map(num, more.get("media", (0, 0, w, h))))
        if "crop" in more:
            box += " /CropBox [%s]" % " ".join(map(num, more["crop"]))
        if "rotate" in more:
            box += " /Rotate %d" % more["rotate"]
        notes = []
        for x, y, nw, nh, paint, flags in more.get("notes", []):
            show = new("<< /Type /XObject /Subtype /Form /BBox [0 0 %s %s] /Length %d >>\nstream\n%s\nendstream" % (
                num(nw), num(nh), len(paint), paint))
            notes.append(new("<< /Type /Annot /Subtype /Square /Rect [%s] /F %d /P %d 0 R /AP << /N %d 0 R >> >>" % (
                " ".join(map(num, (x, y, x + nw, y + nh))), flags, n, show)))
        if notes:
            box += " /Annots [%s]" % " ".join("%d 0 R" % k for k in notes)
        objs[n] = "<< /Type /Page /Parent %d 0 R%s /Contents %d 0 R >>" % (parent, box, stream)
        return n, 1
    build(shape(len(pages)), None, None)
    about = None if info is None else new("<< %s >>" % info)
    out = "%PDF-1.5\n"
    offsets = []
    for n in sorted(objs):
        offsets.append(len(out))
        out += "%d 0 obj\n%s\nendobj\n" % (n, objs[n])
    start = len(out)
    out += "xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1) + "".join("%010d 00000 n \n" % o for o in offsets)
    out += "trailer\n<< /Size %d /Root %d 0 R%s >>\nstartxref\n%d\n%%%%EOF\n" % (
        len(objs) + 1, catalog, " /Info %d 0 R" % about if about else "", start)
    return out.encode("latin1")


def literal(data, rng):
    """A string object with these bytes"""
    if rng.random() < .4:
        return "<%s>" % data.hex()
    out = "("
    for b in data:
        x = rng.random()
        if b in b"()\\":
            out += "\\" + chr(b)
        elif b == 13 or (b == 10 and x < .5):
            out += "\\r" if b == 13 else "\\n"
        elif x < .2 or b >= 127:
            out += "\\%03o" % b
        else:
            out += chr(b)
    return out + ")"


def text_string(text, rng):
    try:
        data = text.encode("ascii")
        if rng.random() < .7:
            return literal(data, rng)
    except UnicodeEncodeError:
        pass
    return literal(b"\xfe\xff" + text.encode("utf-16-be"), rng)
