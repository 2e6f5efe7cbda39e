"""C26: PNG streams (spec/PngStream.tla), C27: pages of a document (spec/PagesIter.tla),
C29: rendered images (spec/Raster.tla); all of lester."""
import json, os, shutil
import vlib, pdfgen, png
from pdf import call
from vlib import Harness, tlc, write_ndjson


def binary():
    return vlib.build(crate="raster", packages=("lester",), dirs=("lester",), binary="vr")


def design(c, module, cfg, name):
    res = tlc(module, cfg, c.work)
    if not res.ok:
        raise vlib.ToolError("the specification contradicts itself:\n" + res.out[-2500:])
    c.add_tlc(res, name)
    return res.prints


def judge(c, module, name, base, base_constant, traces, describe, constants=""):
    """Write both files, have TLC judge the traces, report the first one it rejects"""
    base_path = os.path.join(c.work, name.replace(" ", "-") + "-base.ndjson")
    path = os.path.join(c.work, name.replace(" ", "-") + ".ndjson")
    write_ndjson(base_path, base)
    write_ndjson(path, traces)
    res = tlc(module, 'SPECIFICATION Spec\nCONSTANTS\n  %s = "%s"\n  TraceFile = "%s"\n%sINVARIANT Conforms\n' % (
        base_constant, base_path, path, constants), c.work, timeout=800, heap="12g", coverage=False)
    c.add_tlc(res, name)
    if not res.ok:
        st = vlib.last_state(res.out)
        k = int(st["t"]) - 1
        c.violation("%s: %s\n%s" % (name, st.get("why"), describe(k)), dict(trace=traces[k], why=st.get("why")))
    c.cov["traces_validated_against_impl"] += len(traces)


# ---------------------------------------------------------------- C26

STREAM = """SPECIFICATION Spec
CONSTANTS
  MaxRequests = %d
  MaxSize = %d
  MaxCalls = %d
  Kinds = {"Other", "NotFound"}
  Emit = TRUE
INVARIANT InOrder
INVARIANT FirstIsHandedBack
INVARIANT LeftAlone
INVARIANT Export
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
KINDS = "NotFound PermissionDenied ConnectionReset BrokenPipe WouldBlock InvalidData TimedOut WriteZero UnexpectedEof Other".split()
BIG = "1000000"


def parse_log(log):
    steps = []
    for line in log.decode().split("\n"):
        w = line.split()
        if not w or w[0] == "flush":
            continue
        if w[0] == "panic":
            steps.append(dict(asked=int(w[1]), did="panic", n=0, kind=w[2] if len(w) > 2 else ""))
        elif w[0] == "interrupted" or (w[0] == "error" and w[2] == "Interrupted"):
            steps.append(dict(asked=int(w[1]), did="interrupted", n=0, kind=""))
        elif w[0] == "error":
            steps.append(dict(asked=int(w[1]), did="error", n=0, kind=w[2]))
        else:
            steps.append(dict(asked=int(w[0]), did="moved", n=int(w[1]), kind=""))
    return steps


def parse_result(text, steps):
    w = text.split()
    if text == "ok":
        return "ok", "", 0
    if w[0] == "io" and w[2:5] == ["error", "of", "call"]:
        return "error", w[1], int(w[5])
    if w[:3] == ["panic", "of", "call"]:
        return "panic", w[4] if len(w) > 4 else "", int(w[3])
    if w[0] in ("io", "cairo", "glib"):
        if steps and steps[-1]["did"] == "moved" and steps[-1]["n"] == 0:
            return "short", "", len(steps)
        return ("invalid" if w[0] == "cairo" else text), "", 0
    return text, "", 0


class Image:
    def __init__(self, form, w, h, px, data, has_alpha):
        self.form, self.w, self.h, self.px, self.data, self.has_alpha = form, w, h, px, data, has_alpha

    def record(self):
        return dict(w=self.w, h=self.h, format=self.form, px=[list(p) for p in self.px], bytes=list(self.data),
                    px2=[list(p) for p in getattr(self, "px2", [])])


def random_px(rng, n, form):
    some = [0, 1, 2, 127, 128, 129, 200, 254, 255]

    def v():
        return rng.choice(some) if rng.random() < .5 else rng.randrange(256)
    if form in ("gray", "graya"):
        return [(g, g, g, v() if form == "graya" else 255) for g in (v() for _ in range(n))]
    if form in ("palette", "palettea"):
        colours = [(v(), v(), v(), v() if form == "palettea" else 255) for _ in range(4)]
        return [rng.choice(colours) for _ in range(n)]
    return [(v(), v(), v(), v() if form == "rgba" else 255) for _ in range(n)]


def source_image(rng, form, w, h, **options):
    px = random_px(rng, w * h, form)
    return Image(form, w, h, px, png.write(w, h, px, form, **options), form in ("rgba", "graya", "palettea"))


def read_pixels(part, image):
    head, px = part.split(b"\n", 1)
    w, h = map(int, head.split())
    # In images without transparency the upper byte may be anything
    return w, h, [list((px[k] if image.has_alpha else 255, px[k + 1], px[k + 2], px[k + 3])) for k in range(0, len(px), 4)]


def observe_read(c, h, images, k, data, valid, script, what):
    parts = call(c, h, "pngread", data, ",".join(script), what="%s, script %s\nPNG (hex): %s" % (what, script, data.hex()[:2000]))
    return read_record(images, k, len(data), valid, parts, what + ", reads: " + ",".join(script))


def read_record(images, k, n, valid, parts, what):
    steps = parse_log(parts[0][1])
    result, kind, at = parse_result(parts[1][1].decode(), steps)
    rec = dict(mode="read", image=k + 1, n=n, valid=valid, steps=steps, result=result, kind=kind, at=at, taken=[], got=[],
               w=0, h=0, what=what)
    if len(parts) > 2 and parts[2][0] == "B" and valid:
        rec["w"], rec["h"], rec["got"] = read_pixels(parts[2][1], images[k])
    return rec


def write_payloads(image):
    return (image.form, str(image.w), str(image.h), b"".join(bytes(p) for p in image.px))


def observe_write(c, h, images, k, scripts, what):
    parts = call(c, h, "pngwrite", *write_payloads(images[k]), *[",".join(x) for x in scripts], what=what)
    out = []
    for j, script in enumerate(scripts):
        (_, log), (_, result), (_, taken) = parts[3 * j:3 * j + 3]
        steps = parse_log(log)
        result, kind, at = parse_result(result.decode(), steps)
        out.append(dict(mode="write", image=k + 1, n=0, valid=True, steps=steps, result=result, kind=kind, at=at,
                        taken=list(taken), got=[], w=0, h=0, what=what + ", writes: " + ",".join(script)))
    return out


def target_image(c, h, rng, form, w, hh):
    """An image in cairo, and what an obliging stream receives of it"""
    px = []
    for _ in range(w * hh):
        a = 255 if form == "rgb24" else rng.choice([0, 1, 2, 127, 128, 254, 255, rng.randrange(256)])
        px.append((a,) + tuple(rng.randint(0, a) for _ in range(3)))
    image = Image(form, w, hh, px, b"", form == "argb32")
    parts = call(c, h, "pngwrite", *write_payloads(image), BIG, what="%s %d x %d" % (form, w, hh))
    if parts[1][1] != b"ok":
        c.violation("writing to a stream that takes everything: %s" % parts[1][1].decode(), dict(px=px))
    image.data = parts[2][1]
    try:
        w2, h2, image.px2 = png.read(image.data)
    except (png.BadPng, Exception) as e:
        c.violation("what was written is no PNG file: %s\n%s" % (e, image.data.hex()[:2000]), dict(px=px))
    if (w2, h2) != (w, hh):
        c.violation("an image of %d x %d was written as %d x %d" % (w, hh, w2, h2), dict(px=px))
    return image


def positions(steps_of_plain, suffix_scripts):
    for p in range(steps_of_plain):
        for s in suffix_scripts:
            yield [BIG] * p + s


def C26(c):
    h = Harness(binary(), timeout=60)
    rng = c.rng
    scripts = [json.loads(x) for x in design(c, "PngStreamMC", STREAM % c.n((2, 3, 5), (2, 4, 6)), "every library and stream")]
    scripts = sorted(map(list, set(map(tuple, scripts))))
    c.cov["scripts_of_streams"] = len(scripts)
    kinds = [["e " + k] for k in KINDS] + [["p"], ["pstr"], ["pString"], ["0"], ["i", "i", "p"], ["1", "e Other"], ["e Interrupted", "1", "e Interrupted", "p"]]
    describe_with = lambda traces: (lambda k: traces[k]["what"] + "\n" + json.dumps(traces[k]["steps"])[-600:])

    # Reading
    images = [source_image(rng, "rgb", 2, 2), source_image(rng, "rgba", 1, 2), source_image(rng, "palettea", 3, 2),
              source_image(rng, "rgba", 9, 7, interlace=True, split=20)]
    traces = []

    def reads(k, script, data=None, valid=True, what="an image"):
        traces.append(observe_read(c, h, images, k, images[k].data if data is None else data, valid, script, what))
    for k, image in enumerate(images):
        plain = len(observe_read(c, h, images, k, image.data, True, [BIG], "")["steps"])
        for script in positions(plain, kinds):
            reads(k, script)
        some = list(positions(plain, scripts))
        for script in some if c.thorough and k < 2 else rng.sample(some, min(len(some), c.n(150, 1500))):
            reads(k, script)
        # All patterns of read sizes that end well
        for script in [["1"], ["2"], ["3"], ["5"], [BIG]] + [
                [rng.choice(["1", "2", "3", "4", "7", "i", BIG]) for _ in range(rng.randint(1, 60))] + [rng.choice(["1", "2", BIG])]
                for _ in range(c.n(30, 150))]:
            reads(k, script)
            # Something follows the image: it is not for us
            reads(k, script, image.data + bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))), what="an image and more")
        # Cut at every length
        for n in range(0, len(image.data)):
            reads(k, [rng.choice([BIG, "1", "3"])], image.data[:n], what="cut to %d bytes" % n)
        # Damaged anywhere
        for n in range(len(image.data)):
            d = bytearray(image.data)
            d[n] ^= rng.choice([1, 2, 16, 128, 255])
            reads(k, [rng.choice([BIG, "2"])], bytes(d), False, "byte %d changed" % n)
    # Sound chunks that make no image
    sig, ihdr = images[0].data[:8], lambda *x: png.chunk(b"IHDR", __import__("struct").pack(">IIBBBBB", *x))
    idat, iend = png.chunk(b"IDAT", __import__("zlib").compress(bytes(7) * 2)), png.chunk(b"IEND", b"")
    for data in [sig + iend, sig + ihdr(2, 2, 8, 2, 0, 0, 0) + iend, sig + idat + iend, sig + ihdr(0, 2, 8, 2, 0, 0, 0) + idat + iend,
                 sig + ihdr(2, 0, 8, 2, 0, 0, 0) + idat + iend, sig + ihdr(2, 2, 3, 2, 0, 0, 0) + idat + iend,
                 sig + ihdr(2, 2, 8, 5, 0, 0, 0) + idat + iend, sig + ihdr(2, 2, 8, 3, 0, 0, 0) + idat + iend,
                 sig + ihdr(2, 2, 8, 2, 1, 0, 0) + idat + iend, sig + ihdr(2, 2, 8, 2, 0, 0, 2) + idat + iend,
                 sig + ihdr(0x7fffffff, 0x7fffffff, 8, 6, 0, 0, 0) + idat + iend, sig + ihdr(40000, 1, 8, 6, 0, 0, 0) + idat + iend,
                 sig + ihdr(2, 2, 8, 2, 0, 0, 0) + png.chunk(b"IDAT", b"xxxxxxxx") + iend,
                 sig + ihdr(2, 2, 8, 2, 0, 0, 0) + png.chunk(b"ABCD", b"") + idat + iend,
                 sig + ihdr(2, 2, 8, 2, 0, 0, 0) * 2 + idat + iend, b"GIF89a" + bytes(60), bytes(100), b"\xff\xd8\xff\xe0" + bytes(50)]:
        for script in ([BIG], ["1"]):
            reads(0, script, data, False, "chunks that make no image")
    for _ in range(c.n(300, 4000)):
        k = rng.randrange(len(images))
        d = bytearray(images[k].data)
        for _ in range(rng.randint(1, 4)):
            d[rng.randrange(len(d))] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
        valid = bytes(d) == images[k].data
        reads(k, [rng.choice([BIG, "1", "7"])], bytes(d), valid, "damaged")
    judge(c, "PngStreamTrace", "reading", [i.record() for i in images], "ImageFile", traces, describe_with(traces))
    tally = c.cov["results_of_reading"] = {}
    for x in traces:
        tally[x["result"][:30]] = tally.get(x["result"][:30], 0) + 1
    c.sample("read: " + traces[5]["what"] + " -> " + traces[5]["result"])

    # Many images, each with two patterns of reads
    images, traces = [], []
    for _ in range(c.n(60, 500)):
        form = rng.choice(["rgb", "rgba", "gray", "graya", "palette", "palettea"])
        options = {}
        if rng.random() < .5:
            options["filters"] = [rng.randrange(5) for _ in range(4)]
        if rng.random() < .3:
            options["interlace"] = True
        if rng.random() < .4:
            options["split"] = rng.choice([1, 2, 7, 50])
        options["level"] = rng.choice([0, 1, 9])
        if rng.random() < .3:
            options["extra"] = [(b"tEXt", b"Comment\0" + bytes(rng.randrange(1, 60)).replace(b"\0", b"x"))]
        images.append(source_image(rng, form, rng.randint(1, 12), rng.randint(1, 12), **options))
        for script in ([BIG], [rng.choice(["1", "2", "i", "9", BIG]) for _ in range(50)] + ["3"]):
            reads(len(images) - 1, script, what="%s %s" % (form, options))
    judge(c, "PngStreamTrace", "images", [i.record() for i in images], "ImageFile", traces, describe_with(traces))

    # Chunks larger than any buffer, and many of them
    images, traces = [], []
    for options in [dict(extra=[(b"tEXt", b"Comment\0" + b"x" * n)]) for n in (4000, 8190, 32760, 65527, 65528, 70000, 200000)] + [
            dict(extra=[(b"tEXt", b"Comment\0" + b"y" * rng.randrange(1, 300)) for _ in range(200)])]:
        images.append(source_image(rng, rng.choice(["rgb", "rgba"]), rng.randint(1, 5), rng.randint(1, 5), **options))
        for script in ([BIG], ["4093", "i", "65536", "10000", BIG], ["100", "5000"]):
            reads(len(images) - 1, script, what="large chunks")
    for w, hh, options in [(200, 120, dict(level=0)), (90, 150, dict(level=0, split=30000)), (1, 9000, dict(level=1))]:
        images.append(source_image(rng, rng.choice(["rgb", "rgba"]), w, hh, **options))
        for script in ([BIG], ["4093", "i", "65536", "10000", BIG]):
            reads(len(images) - 1, script, what="a large image")
    judge(c, "PngStreamTrace", "large images", [i.record() for i in images], "ImageFile", traces, describe_with(traces))

    # Writing
    images = [target_image(c, h, rng, "rgb24", 2, 2), target_image(c, h, rng, "argb32", 1, 1), target_image(c, h, rng, "argb32", 5, 3)]
    traces = []
    for k, image in enumerate(images):
        plain = len(observe_write(c, h, images, k, [[BIG]], "")[0]["steps"])
        todo = list(positions(plain, kinds))
        some = list(positions(plain, scripts))
        todo += some if c.thorough and k < 2 else rng.sample(some, min(len(some), c.n(250, 2000)))
        todo += [["1"], ["2"], ["5"], [BIG]] + [
            [rng.choice(["1", "2", "3", "4", "7", "i", BIG]) for _ in range(rng.randint(1, 60))] + [rng.choice(["1", "2", BIG])]
            for _ in range(c.n(60, 300))]
        # A failure after every number of bytes
        for n in range(len(image.data)):
            todo += [["1"] * n + [rng.choice(["p", "pstr", "pString", "0", "e BrokenPipe"])]]
        for j in range(0, len(todo), 50):
            traces += observe_write(c, h, images, k, todo[j:j + 50], "%s %d x %d" % (image.form, image.w, image.h))
    judge(c, "PngStreamTrace", "writing", [i.record() for i in images], "ImageFile", traces, describe_with(traces))
    tally = c.cov["results_of_writing"] = {}
    for x in traces:
        tally[x["result"][:30]] = tally.get(x["result"][:30], 0) + 1
    images, traces = [], []
    for _ in range(c.n(60, 500)):
        images.append(target_image(c, h, rng, rng.choice(["rgb24", "argb32"]), rng.randint(1, 12), rng.randint(1, 12)))
        script = [rng.choice(["1", "2", "i", "9", BIG]) for _ in range(50)] + ["3"]
        traces += observe_write(c, h, images, len(images) - 1, [script], "")
    for form, w, hh in [("rgb24", 150, 100), ("argb32", 3, 4000)]:
        images.append(target_image(c, h, rng, form, w, hh))
        traces += observe_write(c, h, images, len(images) - 1, [[BIG], ["1000", "i", "100", BIG]], "large")
    judge(c, "PngStreamTrace", "images written", [i.record() for i in images], "ImageFile", traces, describe_with(traces))
    files(c, h, rng)
    h.close()


def files(c, h, rng):
    """Named files, in a scratch directory; and /dev/full, which takes nothing"""
    dir = os.path.join(c.work, "files")
    os.makedirs(os.path.join(dir, "directory"))
    small = target_image(c, h, rng, "argb32", 5, 3)
    # Its file is larger than what buffers hold
    large = target_image(c, h, rng, "rgb24", 90, 60)
    images, traces = [small, large], []

    def written(image, path, capacity, can_open, before, h=h):
        parts = call(c, h, "pngfile", *write_payloads(images[image]), path, what="writing the file " + path)
        after = list(open(path, "rb").read()) if os.path.isfile(path) else []
        r = parts[0][1].decode()
        traces.append(dict(mode="writefile", image=image + 1, capacity=capacity, opens=can_open, result=r.split()[0], after=after,
                           what="file %s, room for %d bytes, before: %s: %s" % (path, capacity, before, r)))

    def read(image, path, n, can_open, valid):
        parts = call(c, h, "readfile", path, what="reading the file " + path)
        rec = read_record(images, image, n, valid, parts, "reading %s with %d bytes: %s" % (path, n, parts[1][1].decode()))
        traces.append(dict(mode="readfile", image=image + 1, n=n, opens=can_open, valid=valid, result=parts[1][1].decode().split()[0],
                           got=rec["got"], what=rec["what"]))
    unlimited = 1 << 30
    for k, image in enumerate(images):
        path = os.path.join(dir, "new%d.png" % k)
        written(k, path, unlimited, True, "none")
        written(k, path, unlimited, True, "the same")
        for n in (1, len(image.data) - 1, len(image.data) + 1, 3 * len(image.data)):
            with open(path, "wb") as f:
                f.write(bytes(rng.randrange(256) for _ in range(n)))
            written(k, path, unlimited, True, "%d bytes" % n)
        written(k, "/dev/full", 0, True, "")
        written(k, os.path.join(dir, "missing", "a.png"), unlimited, False, "no such directory")
        written(k, os.path.join(dir, "directory"), unlimited, False, "a directory")
        written(k, os.path.join(dir, "nul\0.png"), unlimited, False, "no possible name")
        n = len(image.data)
        for room in sorted(set([0, 1, n - 1, n, n + 1] + [rng.randrange(n) for _ in range(c.n(3, 40))] +
                               [x for x in (8191, 8192, 8193, 16384) if x < n])):
            limited = Harness(["env", "--ignore-signal=XFSZ", "prlimit", "--fsize=%d" % room, h.binary], timeout=60)
            path2 = os.path.join(dir, "limited.png")
            written(k, path2, room, True, "", limited)
            limited.close()
            os.unlink(path2)
    # What was read is judged as cairo would have it from a file
    sources = [source_image(rng, "rgba", 6, 5), source_image(rng, "rgb", 80, 70, level=0)]
    base = len(images)
    for k, image in enumerate(sources):
        images.append(image)
        path = os.path.join(dir, "source%d.png" % k)
        for n in sorted(set([0, 1, 8, len(image.data) - 1, len(image.data)] + [rng.randrange(len(image.data)) for _ in range(c.n(10, 100))])):
            with open(path, "wb") as f:
                f.write(image.data[:n])
            read(base + k, path, n, True, True)
        for _ in range(c.n(10, 100)):
            d = bytearray(image.data)
            n = rng.randrange(len(d) - 12)
            d[n] ^= 1 << rng.randrange(8)
            with open(path, "wb") as f:
                f.write(d)
            read(base + k, path, len(d), True, False)
    read(base, os.path.join(dir, "nothing.png"), 0, False, True)
    read(base, os.path.join(dir, "directory"), 0, False, True)
    read(base, os.path.join(dir, "nul\0.png"), 0, False, True)
    shutil.rmtree(dir)
    judge(c, "PngFileTrace", "files", [i.record() for i in images], "ImageFile", traces, lambda k: traces[k]["what"])


# ---------------------------------------------------------------- C27

PAGES = """SPECIFICATION Spec
CONSTANTS
  MaxPages = %d
  MaxOps = %d
  Emit = TRUE
INVARIANT Interval
INVARIANT EachOnce
INVARIANT Accounted
INVARIANT Complete
INVARIANT Export
PROPERTY Exhausted
CHECK_DEADLOCK FALSE
"""


def thousandths(s):
    return round(float(s) * 1000)


def parse_page(s):
    w, h, pw, ph, text = s.split(" ", 4)
    return dict(w=thousandths(w), h=thousandths(h), pw=thousandths(pw), ph=thousandths(ph), text=json.loads(text))


def units(text):
    b = text.encode("utf-16-be")
    return [b[k] * 256 + b[k + 1] for k in range(0, len(b), 2)]


PRODUCERS = ["Victor", "Victor <https://github.com/SimonSapin/victor>", "a", "(un)balanced) \\ \\101", "line\nline\rline",
             "caf\u00e9 \u2014 \u4e2d\u6587 \U0001f600", " ", "x" * 300, "%comment /Name", "\u0153uvre", "<68>"]


def producer(rng):
    """(information dictionary, producer)"""
    x = rng.random()
    if x < .15:
        return None, []
    others = ["/Title (the title)", "/Creator (the creator)", "/Author (the author)", "/Subject (Producer)"]
    entries = rng.sample(others, rng.randint(0, 3))
    said = []
    if x < .8:
        said = [rng.choice(PRODUCERS)]
        entries.insert(rng.randint(0, len(entries)), "/Producer " + pdfgen.text_string(said[0], rng))
    return " ".join(entries), [units(x) for x in said]


def parse_op(op, line):
    name, _, k = op.partition(" ")
    rec = dict(op=name, k=int(k or 0), pages=[], number=0, said=[])
    if name in "lc":
        rec["number"] = int(line)
    elif name == "h":
        lower, upper = line[1:-1].split(", ")
        rec["number"] = int(lower) if upper == "Some(%s)" % lower else -1
    elif name == "p":
        if line != "none":
            rec["said"] = [units(bytes.fromhex(line[5:]).decode())]
    elif name in "rasd":
        rec["pages"] = [parse_page(x) for x in line[1:-1].split(";") if x]
    elif line != "none":
        rec["pages"] = [parse_page(line)]
    return rec


def nested(rng, items):
    """A random tree of these, in order"""
    if len(items) <= 1 or rng.random() < .3:
        return list(items)
    out = []
    while items:
        n = rng.randint(1, len(items))
        part, items = items[:n], items[n:]
        out += [nested(rng, part)] if len(part) > 1 or rng.random() < .5 else part
    return out


def document(rng, n):
    sizes = [(rng.choice([100, 300, 612, 595.25, 36.5, 842]), rng.choice([100, 300, 792, 841.75, 42.25])) for _ in range(2)]
    pages = []
    for k in range(n):
        w, h = rng.choice(sizes) if rng.random() < .5 else (rng.randrange(80, 4000) / 4, rng.randrange(80, 4000) / 4)
        pages.append((w, h, "BT /F 6 Tf 2 5 Td (page%d) Tj ET" % k))
    info, said = producer(rng)
    data = pdfgen.make(pages, lambda n: nested(rng, list(range(n))), inherit=rng.random() < .7, info=info)
    return data, dict(pdf=True, producer=said, pages=[dict(w=round(w * 1000), h=round(hh * 1000), text="page%d" % k) for k, (w, hh, _) in enumerate(pages)])


def C27(c):
    h = Harness(binary(), timeout=60)
    rng = c.rng
    docs = [document(rng, n) for n in range(5)]
    traces = []

    def follow(d, histories):
        parts = call(c, h, "pages", docs[d][0], *[",".join(x) for x in histories],
                     what="a document of %d pages, %s" % (len(docs[d][1]["pages"]), histories[:3]))
        for ops, (tag, out) in zip(histories, parts):
            lines = out.decode().split("\n")
            if len(lines) != len(ops):
                c.violation("the document could not be read: %s" % out.decode()[:300], dict(ops=ops))
            traces.append(dict(doc=d + 1, steps=[parse_op(o, l) for o, l in zip(ops, lines)]))
    by = {}
    for line in design(c, "PagesIterMC", PAGES % c.n((3, 3), (4, 4)), "every history of the iterator"):
        n, ops = line.split(" ", 1)
        by.setdefault(int(n), []).append(json.loads(ops))
    for n, histories in sorted(by.items()):
        histories.sort()
        if not c.thorough and len(histories) > 1500:
            histories = rng.sample(histories, 1500)
        elif len(histories) > 25000:
            histories = rng.sample(histories, 25000)
        c.cov.setdefault("histories_followed", {})[n] = len(histories)
        for k in range(0, len(histories), 200):
            follow(n, histories[k:k + 200])
    # Longer ones
    for _ in range(c.n(12, 60)):
        n = rng.choice([1, 2, 4, 5, 7, 8, 16, 20, 31, 50, c.n(60, 200)])
        docs.append(document(rng, n))
        histories = [["p", "h", "a"], ["r", "p"], ["d"], ["f", "b", "n 1", "p", "d"], ["L"], ["c"], ["f"] * (n + 2) + ["l"], ["b"] * (n + 2) + ["h"]]
        for _ in range(c.n(6, 20)):
            ops = []
            for _ in range(rng.randint(1, min(2 * n, 40))):
                x = rng.random()
                ops.append(rng.choice(["f", "b"]) if x < .6 else rng.choice(["l", "h"]) if x < .75 else
                           rng.choice(["n", "m"]) + " %d" % rng.choice([0, 1, 2, 3, rng.randint(0, n + 3)]))
            if rng.random() < .5:
                ops.append(rng.choice(["a", "r", "c", "L", "d", "s %d" % rng.randint(1, n + 2)]))
            histories.append(ops)
        # Beyond every range
        histories += [["n 4294967296", "l", "f"], ["f", "m 4294967296", "h"], ["n 18446744073709551615", "l"],
                      ["m 2147483648", "b", "l"]] if n < 10 else []
        follow(len(docs) - 1, histories)
    # What the document says of its producer
    for _ in range(c.n(60, 400)):
        docs.append(document(rng, rng.randint(1, 2)))
        follow(len(docs) - 1, [["p", "f", "p", "a", "p"]])
    # No documents at all
    whole = docs[2][0]
    for data in [b"", b"%", b"%PDF-1.5\n", b"\0", whole[:20], b"hello" * 50] + [
            bytes(rng.choice(b"hello world\n\0") for _ in range(rng.randint(1, 40))) for _ in range(c.n(20, 100))]:
        docs.append((data, dict(pdf=False, pages=[], producer=[])))
        parts = call(c, h, "pages", data, "l", what="no PDF: %r" % data)
        traces.append(dict(doc=len(docs), steps=[dict(op="open", k=0, pages=[], said=[], number=int(not parts[0][1].startswith(b"error ")))]))
    c.sample("ops %s" % [dict(op=x["op"], k=x["k"]) for x in traces[-1]["steps"]])
    for x in traces:
        for s in x["steps"]:
            s["k"] = min(s["k"], 1000000)   # as good as any other beyond the end
    judge(c, "PagesIterTrace", "histories", [d[1] for d in docs], "DocFile", traces,
          lambda k: "document of %d pages, operations:\n%s" % (len(docs[traces[k]["doc"] - 1][1]["pages"]),
                                                              "\n".join(str(s)[:300] for s in traces[k]["steps"])))
    h.close()


# ---------------------------------------------------------------- C29

UNIT = 8  # lengths are in eighths of points


def raster_page(rng):
    """A page, and what it is for the specification"""
    w, h = rng.choice([(3, 3), (6, 9), (12, 3), (7.5, 20), (24, 17), (30, 30), (10.125, 5.625), (rng.randint(8, 300) / 8, rng.randint(8, 300) / 8)])
    more, x0, y0 = {}, 0, 0
    if rng.random() < .3:
        x0, y0 = (rng.choice([0, rng.randint(-80, 80) / 8, rng.randint(-800, 800)]) for _ in range(2))
        more["media"] = (x0, y0, x0 + w, y0 + h)
    if rng.random() < .2:
        box = (x0, y0, x0 + w, y0 + h)
        more["crop"] = box
        more["media"] = tuple(v + d * rng.choice([0, .75, 3, 20]) for v, d in zip(box, (-1, -1, 1, 1)))
    turns = rng.choice([0, 0, 0, 0, 1, 2, 3])
    if turns:
        more["rotate"] = turns * 90
    colour = lambda: [rng.choice([0, 51, 102, 153, 204, 255]) for _ in range(3)]
    fill = lambda c, *n: "%s %s %s rg %s re f" % (*[pdfgen.num(v / 255) for v in c], " ".join(map(pdfgen.num, n)))
    rects, content, notes = [], "", []
    for k in range(rng.randint(0, 4) + rng.choice([0, 0, 1, 2])):
        grid = rng.choice([.75, .375, 1, .125, 1.5])
        x = x0 + rng.randint(-2, int(w / grid) + 1) * grid
        y = y0 + rng.randint(-2, int(h / grid) + 1) * grid
        rw, rh = rng.randint(1, int(w / grid) + 2) * grid, rng.randint(1, int(h / grid) + 2) * grid
        rects.append(dict(x=round(x * UNIT), y=round(y * UNIT), w=round(rw * UNIT), h=round(rh * UNIT), c=[255] + colour(), screen=True, print=True))
        # The last ones may be annotations: these are painted over the page
        if notes or rng.random() < .15:
            flags = rng.choice([0, 4, 4 + 32, 4, 2, 2 + 4])     # 2 hidden, 4 printed, 32 not on the screen
            notes.append((x, y, rw, rh, fill(rects[-1]["c"][1:], 0, 0, rw, rh), flags))
            rects[-1].update(screen=not flags & (2 + 32), print=flags & 4 > 0 and not flags & 2)
        else:
            content += fill(rects[-1]["c"][1:], x, y, rw, rh) + "\n"
    if notes:
        more["notes"] = notes
    return (w, h, content, more), dict(box={k: round(v * UNIT) for k, v in dict(x=x0, y=y0, w=w, h=h).items()}, turns=turns, rects=rects)


def nearly_whole(rng):
    """A page and a scale by which a size is next to a whole number of pixels, and not whole"""
    while True:
        w, sx = rng.randint(8, 400), rng.randint(100, 2500)
        whole = 3 * 1024 * UNIT
        over = w * 4 * sx % whole
        if 0 < over < whole // 150 or whole - whole // 150 < over and w * 4 * sx < 100 * whole:
            h = rng.randint(8, 200)
            return (w, h, sx) if rng.random() < .5 else (h, w, sx)


def points(line):
    w, h = line.split()[1:]
    return dict(pw=round(float(w) * UNIT), ph=round(float(h) * UNIT))


def C29(c):
    h = Harness(binary(), timeout=60)
    rng = c.rng
    traces, pages = [], []
    for _ in range(c.n(60, 500)):
        made = [raster_page(rng) for _ in range(rng.randint(1, 3))]
        data = pdfgen.make([m[0] for m in made])
        pages += [m[1] for m in made]
        for k, (p, _) in enumerate(made):
            for _ in range(c.n(3, 6)):
                sx = rng.choice([1024, 1024, 2048, 512, 256, 1536, 3200, rng.randint(100, 3000)])
                sy = sx if rng.random() < .4 else rng.choice([1024, 2048, 512, 768, rng.randint(100, 3000)])
                white, printing = rng.random() < .5, rng.random() < .3
                how = "options" if rng.random() < .6 else rng.choice(["dppx", "dppx", "default"])
                if how == "default":
                    sx = 1024
                if how != "options":
                    sy, white, printing = sx, False, False
                what = how + ": page %s, scale %s by %s, %s%s" % (p, sx / 1024, sy / 1024, "white" if white else "transparent", ", for printing" if printing else "")
                parts = call(c, h, "render", data, str(k), repr(sx / 1024), repr(sy / 1024), str(int(white)), str(int(printing)), how, what=what)
                if not parts[0][1].startswith(b"ok "):
                    c.violation("rendering failed: %s\n%s" % (parts[0][1].decode(), what), dict(what=what))
                head, px = parts[1][1].split(b"\n", 1)
                w, hh = map(int, head.split())
                traces.append(dict(page=len(pages) - len(made) + k + 1, sx=sx, sy=sy, white=white, printing=printing, w=w, h=hh, what=what,
                                   **points(parts[0][1]),
                                   px=[[255 if white else px[i], px[i + 1], px[i + 2], px[i + 3]] for i in range(0, len(px), 4)]
                                   if w * hh < 20000 else []))
                if w * hh >= 20000:
                    traces.pop()
    for _ in range(c.n(100, 1000)):
        w, hh, sx = nearly_whole(rng)
        pages.append(dict(box=dict(x=0, y=0, w=w, h=hh), turns=0, rects=[]))
        white = rng.random() < .5
        what = "page %s by %s points, scale %s" % (w / UNIT, hh / UNIT, sx / 1024)
        parts = call(c, h, "render", pdfgen.make([(w / UNIT, hh / UNIT, "")]), "0", repr(sx / 1024), repr(sx / 1024), str(int(white)), "0", "options", what=what)
        head, px = parts[1][1].split(b"\n", 1)
        w, hh = map(int, head.split())
        if w * hh < 20000:
            traces.append(dict(page=len(pages), sx=sx, sy=sx, white=white, printing=False, w=w, h=hh, what=what,
                               **points(parts[0][1]),
                               px=[[255 if white else px[i], px[i + 1], px[i + 2], px[i + 3]] for i in range(0, len(px), 4)]))
    c.cov["pixels"] = sum(len(x["px"]) for x in traces)
    c.sample(traces[0]["what"])
    judge(c, "RasterTrace", "images", pages, "PageFile", traces, lambda k: traces[k]["what"], "  U = %d\n" % UNIT)
    h.close()
