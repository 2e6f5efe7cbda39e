"""Building TrueType files from a description, and reading real ones, independently of the code."""
import struct


def table_cmap4(segments, glyph_array=(), pad_entry=True):
    """segments: list of (start, end, delta, offset_index or None): None means idRangeOffset 0,
    otherwise the index in the glyph array where the segment's glyphs start."""
    segs = list(segments)
    n = len(segs)
    end = b"".join(struct.pack(">H", s[1]) for s in segs)
    start = b"".join(struct.pack(">H", s[0]) for s in segs)
    delta = b"".join(struct.pack(">H", s[2] & 0xFFFF) for s in segs)
    offs = b""
    for k, s in enumerate(segs):
        if s[3] is None:
            offs += struct.pack(">H", 0)
        else:
            offs += struct.pack(">H", 2 * (n - k) + 2 * s[3])
    arr = b"".join(struct.pack(">H", g) for g in glyph_array)
    body = struct.pack(">HHHH", n * 2, 0, 0, 0) + end + b"\0\0" + start + delta + offs + arr
    return struct.pack(">HHH", 4, (len(body) + 6) & 0xFFFF, 0) + body


def table_cmap12(groups):
    body = b"".join(struct.pack(">III", *g) for g in groups)
    return struct.pack(">HHIII", 12, 0, 16 + len(body), 0, len(groups)) + body


def cmap_table(records):
    """records: list of (platform, encoding, subtable bytes)"""
    head = struct.pack(">HH", 0, len(records))
    off = 4 + 8 * len(records)
    body = b""
    for p, e, sub in records:
        head += struct.pack(">HHI", p, e, off + len(body))
        body += sub
        if len(body) % 2:
            body += b"\0"
    return head + body


def name_table(records):
    """records: list of (platform, encoding, name id, bytes)"""
    head = struct.pack(">HHH", 0, len(records), 6 + 12 * len(records))
    body = b""
    for p, e, i, s in records:
        head += struct.pack(">HHHHHH", p, e, 0, i, len(s), len(body))
        body += s
    return head + body


def head_table(upem=1000, bbox=(0, -200, 900, 800)):
    return struct.pack(">IIIIHHQQhhhhHHhhhH", 0x10000, 0x10000, 0, 0x5F0F3CF5, 0, upem, 0, 0, *bbox, 0, 8, 0, 0, 0, 0)


def hhea_table(n, ascender=800, descender=-200):
    return struct.pack(">IhhhHhhhhhhhhhhhH", 0x10000, ascender, descender, 0, 1000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, n)


def maxp_table(n):
    return struct.pack(">IH", 0x5000, n) + b"\0\0"


def hmtx_table(advances):
    return b"".join(struct.pack(">Hh", a, 0) for a in advances)


def sfnt(tables, scaler=0x10000):
    tags = sorted(tables)
    n = len(tags)
    out = struct.pack(">IHHHH", scaler, n, 0, 0, 0)
    off = 12 + 16 * n
    body = b""
    for t in tags:
        data = tables[t]
        out += struct.pack(">4sIII", t.encode(), 0, off + len(body), len(data))
        body += data + b"\0" * (-len(data) % 4)
    return out + body


def font(cmap, advances, glyph_count=None, upem=1000, name=b"Synthetic", ascender=800, descender=-200, names=None,
         bbox=(0, -200, 900, 800), **extra):
    tables = {
        "cmap": cmap, "head": head_table(upem, bbox), "hhea": hhea_table(len(advances), ascender, descender),
        "hmtx": hmtx_table(advances), "maxp": maxp_table(len(advances) if glyph_count is None else glyph_count),
        "name": name_table(names or [(1, 0, 6, name)]),
    }
    tables.update(extra)
    return sfnt(tables)


def groups_of(mapping):
    """Format 12 groups for a dict char -> glyph"""
    groups = []
    for c in sorted(mapping):
        g = mapping[c]
        if groups and groups[-1][1] == c - 1 and groups[-1][2] + (c - groups[-1][0]) == g:
            groups[-1][1] = c
        else:
            groups.append([c, c, g])
    return [tuple(x) for x in groups]


def simple_font(mapping, advances, fmt=12, **kw):
    groups = groups_of(mapping)
    if fmt == 12:
        cm = cmap_table([(3, 10, table_cmap12(groups))])
    else:
        segs = [(a, b, (g - a) & 0xFFFF, None) for a, b, g in groups] + [(0xFFFF, 0xFFFF, 1, None)]
        cm = cmap_table([(3, 1, table_cmap4(segs))])
    return font(cm, advances, **kw)


class Reader:
    """Reads an existing font, table by table, the plain way (linear search)."""

    def __init__(self, data):
        self.d = data
        n = struct.unpack(">H", data[4:6])[0]
        self.tables = {}
        for k in range(n):
            tag, _, off, ln = struct.unpack(">4sIII", data[12 + 16 * k:28 + 16 * k])
            self.tables[tag.decode()] = (off, ln)
        self.upem = self.u16("head", 18)
        self.glyph_count = self.u16("maxp", 4)
        self.nh = self.u16("hhea", 34)
        self.ascender, self.descender = struct.unpack(">hh", self.at("hhea", 4, 4))
        self.metrics = [*struct.unpack(">hhhh", self.at("head", 36, 8)), self.ascender, self.descender]
        self.adv = [self.u16("hmtx", 4 * min(g, self.nh - 1)) for g in range(self.glyph_count)]
        self.map = self.read_cmap()

    def ink(self, g):
        """Where glyph g is black: (x0, y0, x1, y1), () for nowhere, (0,) for another shape than a rectangle"""
        long = self.u16("head", 50)
        loca = [struct.unpack(">I", self.at("loca", 4 * k, 4))[0] if long else 2 * self.u16("loca", 2 * k) for k in (g, g + 1)]
        if loca[0] == loca[1]:
            return ()
        contours, x0, y0, x1, y1, last, hints = struct.unpack(">hhhhhHH", self.at("glyf", loca[0], 14))
        if contours != 1 or last != 3:
            return (0,)
        flags = self.at("glyf", loca[0] + 14 + hints, 4)
        # four points on the curve, each straight right, left, up or down from the one before
        for f in flags[1:]:
            same_x, same_y = f & 0x12 == 0x10, f & 0x24 == 0x20
            if f & 9 != 1 or same_x == same_y:
                return (0,)
        return (x0, y0, x1, y1) if flags[0] & 9 == 1 else (0,)

    def at(self, tag, off, n):
        s = self.tables[tag][0] + off
        return self.d[s:s + n]

    def u16(self, tag, off):
        return struct.unpack(">H", self.at(tag, off, 2))[0]

    def read_cmap(self):
        best = None
        n = self.u16("cmap", 2)
        for k in range(n):
            p, e, off = struct.unpack(">HHI", self.at("cmap", 4 + 8 * k, 8))
            fmt = self.u16("cmap", off)
            if p == 3 and ((e == 1 and fmt == 4) or (e == 10 and fmt == 12)):
                best = (fmt, off)
        fmt, off = best
        m = {}
        if fmt == 4:
            n = self.u16("cmap", off + 6) // 2
            for k in range(n):
                end = self.u16("cmap", off + 14 + 2 * k)
                start = self.u16("cmap", off + 16 + 2 * n + 2 * k)
                delta = self.u16("cmap", off + 16 + 4 * n + 2 * k)
                ro_at = off + 16 + 6 * n + 2 * k
                ro = self.u16("cmap", ro_at)
                for c in range(start, end + 1):
                    if c == 0xFFFF:
                        continue
                    if ro == 0:
                        g = (c + delta) & 0xFFFF
                    else:
                        g = self.u16("cmap", ro_at + ro + 2 * (c - start))
                        if g:
                            g = (g + delta) & 0xFFFF
                    if g:
                        m[c] = g
        else:
            n = struct.unpack(">I", self.at("cmap", off + 12, 4))[0]
            for k in range(n):
                a, b, g = struct.unpack(">III", self.at("cmap", off + 16 + 12 * k, 12))
                for c in range(a, b + 1):
                    m[c] = g + c - a
        return m
