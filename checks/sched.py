"""C16: determinism under every schedule; spec/ParLayout.tla and spec/History.tla."""
import hashlib, json, os
import vlib, render
from htmldoc import *
from vlib import Harness, tlc, write_ndjson

PAR = """SPECIFICATION Spec
CONSTANTS
  N = %d
  T = %d
  W = %d
  Sequential = %s
  Emit = %s
INVARIANT Deterministic
INVARIANT EachOnce
%s"""
HIST = """SPECIFICATION Spec
CONSTANTS
  TraceFile = "%s"
  Who = {%s}
  Docs = {%s}
  Outs = {%s}
  Length = %d
"""
FREE = "INVARIANT OneAnswer\nPROPERTY Kept\n"


def bool_(b):
    return "TRUE" if b else "FALSE"


def model(c, n, t, w, sequential=False, emit=False, liveness=False):
    name = "parallel layout, %d boxes, %d threads, %s" % (n, t, "one after the other" if sequential else "%d workers" % w)
    res = tlc("ParLayout", PAR % (n, t, w, bool_(sequential), bool_(emit), ("PROPERTY Terminates\n" if liveness else "") + ("INVARIANT Export\n" if emit else "")), c.work,
              coverage=False)
    if not res.ok:
        raise vlib.ToolError("the specification contradicts itself: %s\n%s" % (name, res.out[-2000:]))
    c.add_tlc(res, name)
    return [json.loads(x) for x in res.prints]


# ------------------------------------------------------------------ documents

def leaf(rng, pal, k):
    """A block of its own kind"""
    bg = Decl("background", pal.next())
    a = lambda *s: El("i", Text("a%d" % k), style=[Decl("position", ident("absolute")), Decl("background", pal.next()), *s])
    kind = rng.randrange(9)
    if kind == 0:
        return El("p", Text("t%d" % k), style=[bg])
    if kind == 1:
        return El("div", a(), style=[bg, Decl("height", px(3 + k))])
    if kind == 2:
        return El("div", Text("x"), a(), a(Decl("top", px(k)), Decl("left", px(9))), style=[bg])
    if kind == 3:
        return El("div", El("div", a(), style=[bg, Decl("height", px(k))]), style=[Decl("position", ident("relative")), Decl("top", px(k))])
    if kind == 4:
        return El("div", style=[bg, Decl("height", px(2)), Decl("margin", px(rng.choice([-3, 4, 11])))])
    if kind == 5:
        return El("div", Text("y"), style=[bg, Decl("position", ident("absolute"))])
    if kind == 6:
        return El("div", El("div", Text("q"), a(), style=[bg]), a(), El("div", Text("r"), style=[bg, Decl("margin", px(k))]),
                  style=[Decl("padding", px(1))])
    if kind == 7:
        return El("div", El("b", Text("w"), a(), style=[bg]), Text(" v"))
    return El("div", style=[bg, Decl("margin-top", px(7))])


def siblings(rng, n):
    pal = render.Palette(rng)
    return Doc(El("body", *[leaf(rng, pal, k) for k in range(n)]))


def exact_siblings(rng, n):
    """n blocks, each with one absolutely positioned box for the page: three lists of n"""
    pal = render.Palette(rng)
    return Doc(El("body", *[El("div", Text("t%d" % k), El("i", Text("a%d" % k), style=[Decl("position", ident("absolute")), Decl("background", pal.next())]),
                               style=[Decl("margin", px(k)), Decl("background", pal.next())]) for k in range(n)]))


def all_abspos(rng, n):
    """n boxes without a positioned ancestor, for the page to lay out; no other sibling lists"""
    pal = render.Palette(rng)
    ch = [El("i", Text("a%d" % k), style=[Decl("position", ident("absolute")), Decl("background", pal.next()),
                                          *([Decl("left", px(3 * k))] if rng.random() < 0.5 else [])]) for k in range(n)]
    return Doc(El("body", Text("t"), *ch))


def lists(rng, depth, budget, pal, floats):
    n = rng.choice([2, 3, 4, 5, 7, 8, 9])
    out = []
    for k in range(n):
        budget[0] -= 1
        if depth and budget[0] > 0 and rng.random() < 0.3:
            el = El("div", *lists(rng, depth - 1, budget, pal, floats), style=[Decl("background", pal.next())])
            if rng.random() < 0.3:
                el.style.append(Decl("position", ident(rng.choice(["relative", "absolute"]))))
            if rng.random() < 0.2:
                el.style.append(Decl("display", ident("flow-root")))
            if rng.random() < 0.3:
                el.style.append(Decl("margin", px(rng.choice([2, -2, 5]))))
        else:
            el = leaf(rng, pal, k)
            if floats and rng.random() < 0.15:
                el.style.append(Decl("float", ident("left")))
        out.append(el)
    return out


def as_list(x):
    return x if isinstance(x, list) else [x]


def random_doc(rng):
    pal = render.Palette(rng)
    r = rng.random()
    if r < 0.35:
        return Doc(El("body", *lists(rng, 4, [rng.choice([10, 30, 60])], pal, rng.random() < 0.4)))
    if r < 0.6:
        combos = render.axis_combos(rng)
        return Doc(El("body", *[x for _ in range(rng.choice([2, 3, 5, 8])) for x in as_list(render.abs_tree(rng, pal, 4, [8], combos))]))
    if r < 0.75:
        return Doc(El("body", *[x for _ in range(3) for x in render.mixed(rng, pal, 4, [10], False)]))
    if r < 0.9:
        return Doc(El("body", *[render.visible_tree(rng, pal, 5, [8]) for _ in range(rng.choice([3, 6, 9]))]))
    return Doc(El("body", *[x for _ in range(4) for x in render.spaced(rng, pal, 3, [6])]))


# ------------------------------------------------------------------ histories

class Histories:
    def __init__(self, c):
        self.c = c
        self.docs, self.outs, self.events, self.what = [], {}, [], []

    def doc(self, source):
        self.docs.append(source)
        return len(self.docs) - 1

    def out(self, doc, data):
        d = hashlib.sha256(data).hexdigest()
        outs = self.outs.setdefault(doc, [])
        if d not in outs:
            outs.append(d)
        return outs.index(d) + 1

    def note(self, ev, who, doc, what, out=0):
        self.events.append(dict(ev=ev, who=who, doc=doc, out=out))
        self.what.append(what)

    def observe(self, doc, part, what):
        """A rendering with nothing else going on"""
        tag, data = part
        if tag != "B":
            self.c.violation("%s: %s\non document:\n%s" % (what, data.decode("utf8", "replace"), self.docs[doc]), dict(input=self.docs[doc]))
        self.note("begin", "me", doc, what)
        self.note("out", "me", doc, what, self.out(doc, data))
        self.note("end", "me", doc, what)
        self.c.cov["renderings"] = self.c.cov.get("renderings", 0) + 1

    def crowd(self, parts, docs, what, process):
        who = doc = None
        open_ = {}
        for tag, data in parts:
            if tag == "L":
                ev, who, d = data.decode().split()
                who, doc = "%s.%s" % (process, who), docs[int(d)]
                # the results come after "end", in the order of the history
                if ev == "begin":
                    self.note("begin", who, doc, what)
                    open_[who] = doc
                else:
                    open_.pop(who)
                    self.note("closing", who, doc, what)
            elif tag == "B":
                # keep the end after its results
                if self.events[-1]["ev"] == "closing":
                    self.events[-1]["ev"] = "out"
                    self.events[-1]["out"] = self.out(doc, data)
                else:
                    self.note("out", who, doc, what, self.out(doc, data))
                self.note("closing", who, doc, what)
                self.c.cov["concurrent_renderings"] = self.c.cov.get("concurrent_renderings", 0) + 1
            else:
                self.c.violation("%s: %s\non document:\n%s" % (what, data.decode("utf8", "replace"), self.docs[doc]), dict(input=self.docs[doc]))
        # a "closing" mark followed by another result of the same renderer has been superseded
        for k, e in enumerate(self.events):
            if e["ev"] == "closing":
                nxt = next((x for x in self.events[k + 1:k + 2]), None)
                again = nxt and nxt["who"] == e["who"] and nxt["ev"] == "out"
                e["ev"] = "skip" if again else "end"

    def judge(self):
        c = self.c
        keep = [(e, w) for e, w in zip(self.events, self.what) if e["ev"] != "skip"]
        path = os.path.join(c.work, "history.ndjson")
        # one history: the order in which things were seen
        write_ndjson(path, [dict(events=[e for e, _ in keep])])
        res = tlc("History", HIST % (path, "", "", "", 0), c.work, coverage=False, workers=1)
        c.add_tlc(res, "observed history")
        if not res.ok:
            st = vlib.last_state(res.out)
            k = int(st["i"]) - 1
            e, w = keep[min(k, len(keep) - 1)]
            src = self.docs[e["doc"]]
            c.violation("event %d is not one of the specification: %s of document %d, which was rendered differently before\nby: %s\ndocument:\n%s"
                        % (k + 1, e["ev"], e["doc"], w, src), dict(input=src, by=w))
        c.cov["history_events"] = len(keep)
        c.cov["documents"] = len(self.docs)
        c.cov["traces_validated_against_impl"] += sum(e["ev"] == "out" for e, _ in keep)


def shift(log, by):
    return [x[0] + str(int(x[1:]) + by) for x in log]


def C16(c):
    rng = c.rng
    # The specification
    for n, t, w in c.n([(3, 2, 3), (4, 2, 3), (5, 1, 2)], [(3, 2, 3), (4, 2, 3), (4, 4, 4), (5, 2, 3), (6, 1, 3), (7, 1, 2)]):
        model(c, n, t, w, liveness=n <= 5)
    sched = {}
    for n, t in c.n([(2, 1), (3, 1), (3, 2), (4, 1), (4, 2)], [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (6, 1)]):
        sched[n, t] = model(c, n, t, 1, sequential=True, emit=True)
    res = tlc("History", HIST % ("", "1, 2", "1, 2", "1, 2", c.n(7, 8)) + FREE, c.work, coverage=False)
    if not res.ok:
        raise vlib.ToolError("the specification contradicts itself:\n" + res.out[-2000:])
    c.add_tlc(res, "any history")
    c.cov["schedules_exported"] = sum(len(x) for x in sched.values())

    binary = vlib.build(crate="sched", binary="vs")
    plain = vlib.build()
    H = Histories(c)

    def call(h, what, source, *args):
        try:
            return h.call(*args)
        except Harness.Died as e:
            c.violation("%s: %s\ndocument:\n%s" % (what, e, source), dict(input=source))

    h = Harness(binary, timeout=60)
    # 1. The schedules of the specification, in the real code
    followed = total = 0
    families = []
    for (n, t), ss in sorted(sched.items()):
        for _ in range(c.n(3, 6)):
            families.append((n, t, ss, siblings(rng, n)))
        families.append((n, t, ss, all_abspos(rng, n)))
        families.append((n, t, ss, exact_siblings(rng, n)))
    for n, t, ss, doc in families:
        src = doc.source(rng)
        d = H.doc(src)
        picks = ss if len(ss) <= c.n(60, 400) else rng.sample(ss, c.n(60, 400))
        decs, logs = [], []
        for s in picks:
            # one phase follows the schedule, the other two any
            for where in range(3) if len(picks) <= 40 else [rng.randrange(3)]:
                three = [s if k == where else rng.choice(ss) for k in range(3)]
                decs.append("".join(str(x) for y in three for x in y["dec"]))
                logs.append([y["log"] for y in three])
        parts = call(h, "controlled schedules", src, "control", str(t), src, *decs)
        for k, dec in enumerate(decs):
            (_, log), out = parts[2 * k], parts[2 * k + 1]
            H.observe(d, out, "%d threads, joins scheduled as %s" % (t, dec))
            real = [x for x in log.decode().split() if x[0] in "()"]
            total += 1
            # box construction, layout, absolutely positioned boxes: the phases that split work take the decisions in turn
            want, by = [], 0
            for log in logs[k]:
                want += shift(log, by)
                by += len(log) // 2
                if real == want:
                    followed += 1
                    break
        c.sample("%d threads, schedules %s of\n%s" % (t, ", ".join(decs[:3]), src))
    c.cov["schedules_replayed"] = total
    c.cov["schedules_followed_to_the_letter"] = followed

    # 2. Other documents, under schedules drawn at random
    docs = []
    for _ in range(c.n(150, 1200)):
        src = random_doc(rng).source(rng)
        docs.append((H.doc(src), src))
    joins = 0
    for d, src in docs:
        t = rng.choice([1, 2, 3, 5, 16])
        decs = ["", "1" * 200, "3" * 200, "2" * 200] + [
            "".join(rng.choice("01234567" if rng.random() < 0.5 else "0013") for _ in range(rng.choice([20, 200]))) for _ in range(c.n(6, 16))]
        parts = call(h, "controlled schedules", src, "control", str(t), src, *decs)
        for k, dec in enumerate(decs):
            joins = max(joins, parts[2 * k][1].decode().count("("))
            H.observe(d, parts[2 * k + 1], "%d threads, joins scheduled as %s" % (t, dec))
    c.cov["most_joins_in_a_rendering"] = joins

    # 3. Real pools
    for t in c.n([1, 2, 3, 8], [1, 2, 3, 4, 5, 8, 16, 31]):
        some = rng.sample(docs, c.n(50, 400))
        for group in [some[k:k + 25] for k in range(0, len(some), 25)]:
            times = 3
            parts = call(h, "a pool of %d" % t, "", "pool", str(t), str(rng.randrange(1, 10**6)), str(times), *[s for _, s in group])
            for k, out in enumerate(parts):
                H.observe(group[k // times][0], out, "a pool of %d threads" % t)
    # 4. The same document again
    for d, src in docs[:c.n(60, 600)]:
        for out in call(h, "again", src, "again", "3", src):
            H.observe(d, out, "rendered again")
    h.close()
    # 5. Other processes, other orders, unmodified rayon
    for t in c.n([1, 7], [1, 2, 4, 7]):
        p = Harness(plain, threads=t, timeout=60)
        order = docs[:c.n(150, 800)]
        rng.shuffle(order)
        for d, src in order:
            for out in call(p, "another process", src, "html", src)[:1]:
                H.observe(d, out, "another process, with %d threads" % t)
        p.close()
    # 6. Several renderers at once, in new processes
    for k in range(c.n(4, 30)):
        p = Harness(binary, threads=rng.choice([1, 2, 4, 8]), timeout=120)
        some = rng.sample(docs, min(len(docs), rng.choice([5, 12, 20])))
        people = rng.choice([2, 4, 8])
        parts = call(p, "%d renderers at once" % people, "", "crowd", str(people), str(rng.randrange(0, 10**6)), *[s for _, s in some])
        H.crowd(parts, [d for d, _ in some], "%d renderers at once" % people, "p%d" % k)
        p.close()
    H.judge()
    c.assumptions.append("schedules are controlled through rayon-core's join, the only primitive rayon's iterators split work with")
