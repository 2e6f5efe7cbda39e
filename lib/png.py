"""PNG files of our own: writing in several forms and reading, independent of libpng."""
import struct, zlib


def chunk(kind, data):
    return struct.pack(">I", len(data)) + kind + data + struct.pack(">I", zlib.crc32(kind + data) & 0xFFFFFFFF)


def write(w, h, px, form="rgba", filters=None, interlace=False, split=None, level=6, extra=()):
    """px: w*h of (r, g, b, a). form: rgb, rgba, gray, graya, palette, palette with alpha: what it cannot say is the caller's fault"""
    palette = []
    if form in ("palette", "palettea"):
        for p in px:
            if p not in palette:
                palette.append(p)
    kind = dict(rgb=2, rgba=6, gray=0, graya=4, palette=3, palettea=3)[form]

    def raw(p):
        return bytes(dict(rgb=p[:3], rgba=p, gray=p[:1], graya=(p[0], p[3]))[form] if kind != 3 else (palette.index(p),))
    bpp = len(raw(px[0]))

    def rows(xs, ys):
        data = b""
        prev = None
        for k, y in enumerate(ys):
            row = b"".join(raw(px[y * w + x]) for x in xs)
            if not row:
                return b""
            f = (filters or [0])[k % len(filters or [0])]
            up = prev or bytes(len(row))
            out = bytearray()
            for i, v in enumerate(row):
                a = row[i - bpp] if i >= bpp else 0
                b = up[i]
                c = up[i - bpp] if i >= bpp else 0
                p = a + b - c
                pa = min((abs(p - a), 0), (abs(p - b), 1), (abs(p - c), 2))[1]
                out.append((v - [0, a, b, (a + b) // 2, (a, b, c)[pa]][f]) & 255)
            data += bytes([f]) + bytes(out)
            prev = row
        return data
    if interlace:
        data = b"".join(rows(range(x, w, dx), range(y, h, dy)) for x, y, dx, dy in (
            (0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)))
    else:
        data = rows(range(w), range(h))
    data = zlib.compress(data, level)
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, kind, 0, 0, int(interlace)))
    for k, v in extra:
        out += chunk(k, v)
    if palette:
        out += chunk(b"PLTE", b"".join(bytes(p[:3]) for p in palette))
        if form == "palettea":
            out += chunk(b"tRNS", bytes(p[3] for p in palette))
    split = split or len(data)
    for k in range(0, len(data), split):
        out += chunk(b"IDAT", data[k:k + split])
    return out + chunk(b"IEND", b"")


class BadPng(Exception):
    pass


def read(data):
    """Returns (w, h, px as (r, g, b, a)); 8-bit RGB and RGBA without interlacing only"""
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise BadPng("no signature")
    pos, idat, head = 8, b"", None
    while True:
        if pos + 12 > len(data):
            raise BadPng("cut")
        n = struct.unpack(">I", data[pos:pos + 4])[0]
        kind, body = data[pos + 4:pos + 8], data[pos + 8:pos + 8 + n]
        if data[pos:pos + 12 + n] != chunk(kind, body):
            raise BadPng("chunk %r" % kind)
        pos += 12 + n
        if kind == b"IHDR":
            head = struct.unpack(">IIBBBBB", body)
        elif kind == b"IDAT":
            idat += body
        elif kind == b"IEND":
            break
    if pos != len(data):
        raise BadPng("data after the end")
    w, h, depth, kind, _, _, interlace = head
    if depth != 8 or kind not in (2, 6) or interlace:
        raise BadPng("form %s" % (head,))
    bpp = 3 if kind == 2 else 4
    raw = zlib.decompress(idat)
    if len(raw) != h * (1 + w * bpp):
        raise BadPng("size of the data")
    px, up = [], bytes(w * bpp)
    for y in range(h):
        f, *line = raw[y * (1 + w * bpp):(y + 1) * (1 + w * bpp)]
        row = bytearray()
        for i, v in enumerate(line):
            a = row[i - bpp] if i >= bpp else 0
            b = up[i]
            c = up[i - bpp] if i >= bpp else 0
            p = a + b - c
            pa = min((abs(p - a), 0), (abs(p - b), 1), (abs(p - c), 2))[1]
            row.append((v + [0, a, b, (a + b) // 2, (a, b, c)[pa]][f]) & 255)
        up = bytes(row)
        for x in range(w):
            p = tuple(row[x * bpp:(x + 1) * bpp])
            px.append(p if bpp == 4 else p + (255,))
    return w, h, px
