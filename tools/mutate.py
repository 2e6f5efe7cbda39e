"""python3 tools/mutate.py SEED COUNT PART OF [FILE…]: small changes to the code under test, one at a time, against the checks that
should see them.  Run in a copy of /verif with VERIF_REPO a copy of /repo (tools like runseeds.py do the same for planted changes).
Prints one line for each; survivors are then looked at by hand: a change that keeps the behaviour, or a gap."""
import os, random, re, subprocess, sys
REPO = os.environ["VERIF_REPO"]
MAP = [
    ("victor/src/layout/flow/inline.rs", "C15 C13 C08 C09 C14 C10"), ("victor/src/layout/flow/mod.rs", "C12 C11 C14 C13 C08"),
    ("victor/src/layout/flow/root.rs", "C08 C14 C12"), ("victor/src/layout/positioned.rs", "C14 C13 C16"),
    ("victor/src/layout/flow/construct.rs", "C09 C10 C08 C14"), ("victor/src/layout/fragments.rs", "C12 C08 C13"),
    ("victor/src/layout/mod.rs", "C14 C13 C11 C08"), ("victor/src/geom.rs", "C12 C13 C14 C11"), ("victor/src/layout/dom_traversal.rs", "C08 C09"),
    ("victor/src/paint.rs", "C08 C05 C13"), ("victor/src/style/selectors.rs", "C03 C04"), ("victor/src/style/cascade.rs", "C04 C05"),
    ("victor/src/style/rules.rs", "C06 C04"), ("victor/src/style/declaration_block.rs", "C04 C06 C07 C05"),
    ("victor/src/style/values/length.rs", "C06 C05 C11 C14"), ("victor/src/style/values/border.rs", "C06 C05 C07"),
    ("victor/src/style/values/box_.rs", "C06 C08 C05"), ("victor/src/style/values/color.rs", "C05 C06"),
    ("victor/src/style/values/fonts.rs", "C05 C06"), ("victor/src/style/values/generic.rs", "C07 C06"), ("victor/src/style/values/mod.rs", "C06 C05"),
    ("victor/src/style/properties/mod.rs", "C05 C04 C06"), ("victor/src/style/properties/macros.rs", "C05 C07 C04"),
    ("victor/src/style/properties/definitions.rs", "C05 C07 C06"),
    ("victor/src/pdf/convert.rs", "C18 C19 C31 C17"), ("victor/src/pdf/object.rs", "C20 C18 C19 C17"), ("victor/src/pdf/syntax.rs", "C17 C21"),
    ("victor/src/pdf/mod.rs", "C17 C21 C18"), ("victor/src/fonts/cmap.rs", "C24 C25 C19"), ("victor/src/fonts/mod.rs", "C25 C19 C24"),
    ("victor/src/fonts/parsing.rs", "C25 C24"), ("victor/src/fonts/tables.rs", "C25 C24"), ("victor/src/text.rs", "C15 C22"),
    ("victor/src/text_plain.rs", "C22 C23"), ("victor/src/dom/mod.rs", "C01 C30 C02"), ("victor/src/dom/html.rs", "C01 C30"),
    ("victor/src/dom/xml.rs", "C02 C30"), ("lester/src/poppler.rs", "C27 C29"), ("lester/src/cairo.rs", "C26 C29"), ("lester/src/convert.rs", "C26 C29"),
    ("lester/src/errors.rs", "C26"),
]
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "),
         (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r" && ", " || "), (r" \|\| ", " && "), (r"\.max\(", ".min("),
         (r"\.min\(", ".max("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\.", "1."), (r"\b1\.", "2."), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"),
         ("inline_start", "inline_end"), ("inline_end", "inline_start"), ("block_start", "block_end"), ("block_end", "block_start"),
         (r"\.inline\b", ".block"), (r"\.block\b", ".inline"), (r"\bfirst_child\b", "last_child"), (r"\bnext_sibling\b", "previous_sibling"),
         (r"\bprevious_sibling\b", "next_sibling"), (r"\bpadding\b", "margin"), (r"\bmargin\b", "padding"), (r"\bborder\b", "padding"),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.is_empty\(\)", ".is_empty() == false"),
         (r"\bleft\b", "right"), (r"\btop\b", "bottom"), (r"\bwidth\b", "height"), (r"\bheight\b", "width"), (r"\.x\b", ".y"), (r"\.y\b", ".x"),
         (r"\.rev\(\)", ""), (r"\.filter\(", ".skip_while("), (r"\bLess\b", "Greater"), (r"\bbreak\b", "continue"), (r"\.first\(", ".last("),
         (r"\binherited\b", "reset"), (r"\bNone =>", "_ if false =>")]
DROP = re.compile(r"^\s*(self\.|[a-z_.]+ [+\-|]?= |[a-z_]+\.[a-z_.]+\(|\*[a-z_]+ [+|]?= ).*;$")


def mutants(path, text):
    lines = text.split("\n")
    for k, line in enumerate(lines):
        code = line.split("//")[0]
        if "#[test]" in line:
            break
        if not code.strip() or re.match(r"\s*(use |#|///?|pub use|mod |debug_assert|assert|impl|pub mod|extern|\*/|/\*)", line) or "macro_rules" in line:
            continue
        for a, b in SWAPS:
            for m in re.finditer(a, code):
                yield k, code[:m.start()] + b + code[m.end():] + line[len(code):]
        if DROP.match(line):
            yield k, "// " + line


def main():
    seed, count, part, of = map(int, sys.argv[1:5])
    rng = random.Random(seed)
    todo = []
    for path, checks in MAP:
        if sys.argv[5:] and not any(x in path for x in sys.argv[5:]):
            continue
        text = open(os.path.join(REPO, path)).read()
        ms = [(path, checks, k, new) for k, new in mutants(path, text)]
        rng.shuffle(ms)
        # more from longer files, a few from each
        todo += ms[:max(4, len(ms) // 6)]
    rng.shuffle(todo)
    todo = todo[:count]
    for n, (path, checks, k, new) in enumerate(todo):
        if n % of != part:
            continue
        full = os.path.join(REPO, path)
        text = open(full).read()
        lines = text.split("\n")
        old, lines[k] = lines[k], new
        open(full, "w").write("\n".join(lines))
        result = "SURVIVED"
        try:
            for c in checks.split():
                r = subprocess.run([sys.executable, "run.py", c, "quick"], capture_output=True, text=True, errors="replace", timeout=900)
                if r.returncode == 1:
                    result = "caught by " + c
                    break
                if r.returncode != 0:
                    result = "no answer of " + c if "error" not in r.stdout + r.stderr or "could not compile" not in r.stdout + r.stderr else "does not build"
                    break
        except subprocess.TimeoutExpired:
            result = "timeout of " + c
        finally:
            open(full, "w").write(text)
        print("%s | %s:%d | %s | %s" % (result, path, k + 1, old.strip(), new.strip()), flush=True)


main()
