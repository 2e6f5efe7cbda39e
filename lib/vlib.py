"""Building the harness from /repo's working tree, running it, running TLC, and reporting."""
import hashlib, json, os, random, re, select, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")


class ToolError(Exception):
    """Something of the machinery itself failed: exit 2, never a verdict."""


class Violation(Exception):
    def __init__(self, prop, detail, data):
        super().__init__(detail)
        self.prop, self.detail, self.data = prop, detail, data


def env():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0", LANG="C.UTF-8")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("CARGO_INCREMENTAL", None)
    return e


def tree_digest(*subdirs):
    """Digest of the sources in /repo the harness is built from."""
    h = hashlib.sha256()
    for sub in subdirs:
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
            for name in sorted(files):
                path = os.path.join(root, name)
                h.update(path.encode())
                try:
                    h.update(open(path, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def build(crate="harness", packages=("victor", "victor-internal-proc-macros"), dirs=("victor", "proc-macros"),
          binary="vh"):
    """Build a harness crate against /repo's working tree; returns the path of its binary."""
    crate_dir = os.path.join(VERIF, crate)
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = target
    digest = tree_digest(*dirs)
    stamp = os.path.join(BUILD, "stamp-" + crate)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != digest:
        # cargo looks at modification times: do not trust them across copies of the tree.
        if old:
            for p in packages:
                subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=crate_dir, env=e,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    # The hooks are compiled in with a cfg flag; without it if that does not build
    for flags in ("--cfg victor_verif", ""):
        e["RUSTFLAGS"] = flags
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=crate_dir, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            break
    else:
        raise ToolError("cannot build %s:\n%s" % (crate, r.stdout[-4000:]))
    with open(stamp, "w") as f:
        f.write(digest)
    return os.path.join(target, "debug", binary)


class Harness:
    """A process running the real code. `call` returns its parts, or raises Died."""

    class Died(Exception):
        pass

    def __init__(self, binary, threads=None, timeout=30, preload=()):
        self.binary, self.threads, self.timeout = binary, threads, timeout
        self.preload = list(preload)
        self.p = None
        self.calls = 0

    def start(self):
        e = env()
        if self.threads:
            e["RAYON_NUM_THREADS"] = str(self.threads)
        e["RUST_MIN_STACK"] = str(8 << 20)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.binary if isinstance(self.binary, list) else [self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, bufsize=0)
        self.buf = b""
        for mode, payloads in self.preload:
            self._call(mode, payloads)

    def _read(self, deadline):
        left = deadline - time.time()
        if left <= 0:
            raise Harness.Died("no answer within %s s" % self.timeout)
        r, _, _ = select.select([self.p.stdout], [], [], left)
        if not r:
            raise Harness.Died("no answer within %s s" % self.timeout)
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            code = self.p.wait()
            self.err.seek(0)
            raise Harness.Died("process ended with %s: %s" % (code, self.err.read()[-300:].decode("utf8", "replace")))
        self.buf += data

    def _call(self, mode, payloads):
        msg = (mode + "".join(" %d" % len(x) for x in payloads) + "\n").encode() + b"".join(payloads)
        deadline = time.time() + self.timeout
        # Write and read at the same time, so that neither pipe can fill up for good
        view = memoryview(msg)
        while len(view):
            left = deadline - time.time()
            if left <= 0:
                raise Harness.Died("input not taken within %s s" % self.timeout)
            r, w, _ = select.select([self.p.stdout], [self.p.stdin], [], left)
            if w:
                try:
                    n = os.write(self.p.stdin.fileno(), view[:65536])
                except BrokenPipeError:
                    n = len(view)
                view = view[n:]
            if r:
                self._read(deadline)
        parts = []
        pos = 0
        while True:
            while b"\n" not in self.buf[pos:pos + 40]:
                self._read(deadline)
            nl = self.buf.index(b"\n", pos)
            tag, n = self.buf[pos:nl].split()
            n = int(n)
            while len(self.buf) < nl + 1 + n:
                self._read(deadline)
            payload = self.buf[nl + 1:nl + 1 + n]
            pos = nl + 1 + n
            if tag == b"E":
                self.buf = self.buf[pos:]
                return parts
            parts.append((tag.decode(), payload))

    def call(self, mode, *payloads):
        payloads = [x.encode() if isinstance(x, str) else x for x in payloads]
        if self.p is None:
            self.start()
        self.calls += 1
        try:
            return self._call(mode, payloads)
        except Harness.Died:
            self.close(kill=True)
            raise

    def close(self, kill=False):
        if self.p is not None:
            if kill:
                self.p.kill()
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.wait()
            self.p.stdout.close()
            self.p = None


class TlcResult:
    def __init__(self, ok, out, states, distinct, depth, prints, actions):
        self.ok, self.out, self.states, self.distinct, self.depth = ok, out, states, distinct, depth
        self.prints, self.actions = prints, actions


ERR = re.compile(r"^Error: ", re.M)


def tlc(module, cfg, workdir, workers=8, timeout=600, extra=(), env_extra=None, heap="6g", coverage=True):
    """Run TLC on spec/<module>.tla with the given configuration text.
    Returns TlcResult; ok is False for a violated property or a deadlock (a rejected trace).
    Anything else that goes wrong is a ToolError."""
    os.makedirs(workdir, exist_ok=True)
    cfg_path = os.path.join(workdir, module + ".cfg")
    with open(cfg_path, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=workdir)
    e = env()
    e["JAVA_TOOL_OPTIONS"] = "-Xss256m -Xmx%s -XX:+UseParallelGC" % heap
    e.update(env_extra or {})
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-config", cfg_path, "-noGenerateSpecTE",
           *(["-coverage", "60"] if coverage else []), *extra, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s took more than %d s" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    with open(os.path.join(workdir, module + ".out"), "w") as f:
        f.write(out)
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
    states, distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    prints = []
    for line in out.splitlines():
        if line.startswith('"@@') and line.endswith('"'):
            prints.append(json.loads(line)[2:])
    # Per-action coverage: how many states each action led to (last report)
    actions = {}
    for name, a, b in re.findall(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", out, re.M):
        actions[name] = (int(a), int(b))
    if r.returncode == 0 and "Model checking completed. No error has been found." in out:
        return TlcResult(True, out, states, distinct, int(d[-1]) if d else 0, prints, actions)
    if r.returncode == 0 and extra and "-simulate" in extra and not ERR.search(out):
        m = re.findall(r"number of states generated: ([\d,]+)", out)
        states = int(m[-1].replace(",", "")) if m else states
        return TlcResult(True, out, states, distinct, 0, prints, actions)
    # 11 deadlock, 12 safety violation, 13 liveness violation
    if r.returncode in (11, 12, 13):
        return TlcResult(False, out, states, distinct, 0, prints, actions)
    raise ToolError("TLC failed on %s (exit %s):\n%s" % (module, r.returncode, out[-6000:]))


def last_state(out):
    """The last state of TLC's error trace, as text by variable."""
    states = re.split(r"^State \d+: .*$", out, flags=re.M)
    if len(states) < 2:
        return {}
    text = re.split(r"^\d+ states generated|\n\n", states[-1], flags=re.M)[0]
    res = {}
    for m in re.finditer(r"^/\\ (\w+) = (.*?)(?=^/\\ |\Z)", text, re.M | re.S):
        res[m.group(1)] = m.group(2).strip()
    if not res:
        m = re.match(r"\s*(\w+) = (.*)", text, re.S)
        if m:
            res[m.group(1)] = m.group(2).strip()
    return res


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%s" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.known_hits = []
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)

    thorough = property(lambda self: self.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s if len(s) <= 1500 else s[:1500] + "…")

    def add_tlc(self, res, name):
        self.cov["states"] += res.distinct
        self.cov["transitions"] += max(res.states - 1, 0)
        d = self.cov.setdefault("tlc_runs", {})
        d[name] = dict(states_generated=res.states, distinct=res.distinct, depth=res.depth,
                       actions={k: v[1] for k, v in sorted(res.actions.items())})

    def violation(self, detail, data):
        raise Violation(self.prop, detail, data)

    def is_known(self, what):
        """Whether known-findings.txt lists exactly this"""
        line = "KNOWN-FINDING: property=%s %s" % (self.prop, what)
        return line in open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()

    def known(self, what):
        self.known_hits.append(what)

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=violations)
        if self.known_hits:
            ev["coverage"]["known_findings_seen"] = len(self.known_hits)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")


def run_check(prop, tier, fn):
    """Run fn(check); prints the verdict and returns the exit code."""
    c = Check(prop, tier)
    try:
        fn(c)
    except Violation as v:
        path = os.path.join(c.replays, "%s-%s.json" % (prop, tier))
        with open(path, "w") as f:
            json.dump(dict(property=prop, detail=v.detail, seed=c.seed, data=v.data), f, indent=1,
                      ensure_ascii=False, default=lambda b: b.decode("latin1") if isinstance(b, bytes) else str(b))
        c.cov.setdefault("samples", []).insert(0, v.detail[:1500])
        c.evidence(1)
        print(v.detail[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except ToolError as e:
        print("ERROR of the check of %s: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for k in sorted(set(c.known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    c.evidence(0)
    print("%s %s: held; %d states, %d traces validated, %.1f s" % (
        prop, tier, c.cov["states"], c.cov["traces_validated_against_impl"], c.elapsed()))
    return 0


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
