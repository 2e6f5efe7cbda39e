"""Plants a bug: python3 seedtool.py FILE.py [ID…]: for each definition in FILE.py
   SEEDS = {id: dict(prop=, edits=[(file, old, new)…], demo=rust source, needs=, breaks=, crate="victor")}
applies the edits in a scratch copy, confirms that it builds, passes the stable tests, and that the
demonstration fails with them and passes without, then writes /verif/seeded/ID/.
The scratch copy is at /tmp/seedwt (made here when missing: a clone of /repo with its build products)."""
import json, os, re, shutil, subprocess, sys

V = "/verif"
WT = "/tmp/seedwt"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO_SH = '''#!/bin/bash
# Builds main.rs against the crate in the current directory (a tree of SimonSapin/victor) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf -- "$work"' EXIT
export HOME=/root RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
unset RUSTFLAGS
export CARGO_TARGET_DIR="$work/target"
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
for lock in "$repo/Cargo.lock" /opt/vp/Cargo.lock; do
    if [ -e "$lock" ]; then cp "$lock" "$work/Cargo.lock"; break; fi
done
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
@DEPS@
[profile.dev]
debug = false
incremental = false
[workspace]
TOML
cd "$work" || exit 3
cargo build --offline -q || exit 3
timeout 120 "$work/target/debug/demo" "$repo"
'''

PRELUDE = '''#![allow(dead_code)]
use victor::dom::Document;

fn pdf(html: &str) -> Vec<u8> {
    Document::parse_html(html.as_bytes()).to_pdf_bytes()
}

/// The content stream of the page
fn content(pdf: &[u8]) -> String {
    let s: String = pdf.iter().map(|&b| b as char).collect();
    s.split("stream\\n").find(|x| x.contains(" cm\\n")).expect("no page").to_owned()
}

/// What is painted, one line each, colours included: `R r g b x y w h` or `T x y glyphs`
fn painted_pdf(pdf: &[u8]) -> Vec<String> {
    let (mut color, mut at, mut out) = (String::from("0 0 0"), String::new(), Vec::new());
    for line in content(pdf).lines() {
        let w: Vec<&str> = line.split(' ').collect();
        match w.last().copied() {
            Some("rg") => color = w[..3].join(" "),
            Some("re") => out.push(format!("R {} {}", color, w[..4].join(" "))),
            Some("Tm") => at = w[4..6].join(" "),
            Some("Tj") => out.push(format!("T {} {}", at, w[0])),
            _ => {}
        }
    }
    out
}

fn painted(html: &str) -> Vec<String> {
    painted_pdf(&pdf(html))
}

/// x, y, width and height of each rectangle
fn rects(html: &str) -> Vec<[f32; 4]> {
    painted(html)
        .iter()
        .filter(|l| l.starts_with('R'))
        .map(|l| {
            let v: Vec<f32> = l.split(' ').skip(4).map(|x| x.parse().unwrap()).collect();
            [v[0], v[1], v[2], v[3]]
        })
        .collect()
}

fn near(a: f32, b: f32) -> bool {
    (a - b).abs() < 0.01
}

fn near4(a: [f32; 4], b: [f32; 4]) -> bool {
    (0..4).all(|i| near(a[i], b[i]))
}

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def own_lines():
    """Lines added by our own commits, per file"""
    root = sh("git -C /repo log --format=%H --reverse --grep='^fix:' --grep='^Hook' | head -1").stdout.strip()
    res = {}
    for f in sh("git -C /repo diff --name-only %s~1 HEAD" % root).stdout.split():
        blame = sh("git -C /repo blame -s --abbrev=40 %s~1..HEAD -- %s" % (root, f)).stdout.splitlines()
        res[f] = {i + 1 for i, l in enumerate(blame) if not l.startswith("^")}
    return res


def prepare():
    if not os.path.exists(WT):
        sh("mkdir -p %s && cp -a /repo/. %s/" % (WT, WT))
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq" % (WT, WT, WT))


def env():
    e = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=WT + "/target",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="1", RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e["PATH"]
    return e


def tests_pass():
    """The stable tests, as /opt/vp/test.sh runs them, on the scratch copy"""
    script = open("/opt/vp/test.sh").read().replace("/repo", WT).replace(". /opt/vp/env.sh", "")
    out = "/tmp/seed-out.json"
    r = subprocess.run(["bash", "-c", script, "test.sh", out], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(out):
        return ["no result: " + r.stdout[-500:]]
    got = json.load(open(out))
    want = BASE["stable"] if "stable" in BASE else BASE["passed"]
    return [t for t in want if t not in got["passed"]]


def plant(ident, d):
    prepare()
    own = own_lines()
    for f, old, new in d["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s: %d matches" % (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % WT).stdout
    # original lines only
    f, n, touched = None, 0, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if n in own.get(f, ()):
                touched += 1
            n += 1
        elif not l.startswith("+"):
            n += 1
    if touched:
        return "changes %d lines of our own commits" % touched
    crate = d.get("crate", "victor")
    deps = d.get("deps", '%s = {path = "$repo/%s"}' % (crate, crate))
    tmp = "/tmp/seed-demo"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.sh", "w").write(DEMO_SH.replace("@DEPS@", deps))
    open(tmp + "/main.rs", "w").write((PRELUDE if d.get("prelude", crate == "victor") else "") + d["demo"])
    os.chmod(tmp + "/demo.sh", 0o755)
    b = subprocess.run("cargo test --workspace --no-run --offline", shell=True, cwd=WT, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if b.returncode:
        return "does not build:\n" + b.stdout[-1500:]
    failed = tests_pass()
    if failed:
        return "fails tests: %s" % failed
    bad = sh("%s/demo.sh" % tmp, cwd=WT)
    if bad.returncode in (0, 3):
        return "demo with the patch: exit %d\n%s" % (bad.returncode, bad.stdout[-1500:])
    good = sh("%s/demo.sh" % tmp, cwd="/repo")
    if good.returncode:
        return "demo on the unchanged tree: exit %d\n%s" % (good.returncode, good.stdout[-1500:])
    dst = os.path.join(V, "seeded", ident)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(tmp, dst)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(dst + "/meta.json", "w"), indent=1)
    return "ok (with the patch: %s)" % bad.stdout.strip().splitlines()[-1:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for ident in sys.argv[2:] or ns["SEEDS"]:
        if not sys.argv[2:] and os.path.exists(os.path.join(V, "seeded", ident, "patch.diff")):
            continue
        print(ident, plant(ident, ns["SEEDS"][ident]), flush=True)


if __name__ == "__main__":
    main()
