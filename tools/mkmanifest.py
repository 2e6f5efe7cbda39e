"""Writes MANIFEST.json from run.py's table and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
TECH = {
    "dom": "TLA+ specification of document trees (Dom): the link-updating design (DomLinks) model-checked against it for every history over a few nodes; operations recorded from the real parsers replayed by TLC (DomTrace) and compared with the real document's links and with what is painted",
    "render": "TLA+ specification of rendering (RenderCss, RenderBoxes, RenderLayout, Render): TLC takes each document through cascade, box generation, layout and painting, checks the specification's own invariants on every state, and compares the display list with the one read back from the real PDF",
    "sched": "TLA+ specification of the parallel layout of sibling lists (ParLayout): every interleaving of small cases model-checked, every schedule of one worker exported and replayed in the real code through a rayon-core whose joins are under control; all renderings, controlled, in real pools and concurrent, form a history that TLC checks against the specification (History)",
    "fonts": "TLA+ specification of what the bytes of a TrueType file mean (FontFile: directory, name, metrics, character maps) and of the design of searching and enumerating character maps (FontSearch, model-checked for every table of small sizes, which are exported and built as real fonts); TLC judges what the real code made of each file, byte changes and cuts included (FontTrace)",
    "plain": "TLA+ specification of plain-text layout (PlainText) whose promises TLC checks for every text and page of small sizes (PlainTextMC); the same texts and random ones are laid out by the real code and TLC checks the recorded glyph positions against the specification (PlainTextTrace)",
    "raster": "TLA+ specifications of the callbacks between a C library and someone else's stream (PngStream), of taking pages from both ends (PagesIter) and of the image of a page (Raster); designs model-checked, every short stream behaviour and history of the iterator exported and followed by the real code, and TLC checks the recorded calls, answers and pixels against them (PngStreamTrace, PngFileTrace, PagesIterTrace, RasterTrace)",
    "viewer": "TLA+ specification of rendering (Render) extended with what a reader of the file may show at each pixel and read as text (Viewer); TLC takes each document through cascade to display list and judges pixels and text that Poppler made of the real PDF",
    "robust": "TLA+ specification of inputs as sequences of pieces and of the stages every input goes through (Robust); TLC enumerates all short inputs and draws long ones, the real code renders them and byte mutations, and TLC judges the outcomes (RobustTrace)",
    "pdf": "TLA+ specification (PdfDoc, PdfFile, PdfWriter, PdfLex) model-checked with TLC; histories and recorded traces of the real code validated against it",
}
NOTE = {
    "C01": "The operations are recorded with a sink of our own from the same HTML parser (html5ever, trusted to ask for the right ones). The real document is seen through a guarded hook and, independently, through the boxes painted. Short tag sequences over three alphabets (sampled in quick, nearly exhaustive to length 4 in thorough), misnested formatting, tables, random and damaged documents.",
    "C02": "The events are those of xml-rs (trusted for well-formedness, except that a second root element is an error), checked against the trees of generated documents; fixed edge cases and damaged documents.",
    "C03": "All An+B arguments of a small range, all pairs of attribute operators and values of a list, and random trees with selectors built around real elements and their relatives; each of eight rules per document switches a bit of the size of the boxes it matches.",
    "C04": "Pairs of declarations over all kinds of selectors, importance and place; user-agent against author rules; random sheets (up to 129 rules that match, 130 declarations to a block, several style elements). Colours and sizes tell the winner.",
    "C05": "Each property below each kind of parent value with each CSS-wide keyword, and random trees of em lengths, keywords and currentcolor. Border colours are not painted by victor and cannot be observed.",
    "C06": "The grammar in the specification decides for each declaration, built from a list of good and bad tokens, whether it is valid; malformed rules and at-rules are put between valid ones.",
    "C07": "One to four values of each shorthand against longhands before and after, in rules and style attributes, with importance. One known finding (four values). Border colours are not painted by victor and cannot be observed.",
    "C08": "All pairs of display values between texts and blocks, root and body of every display, random trees; exact comparison of the display lists in order.",
    "C09": "All sequences of up to four pieces of inline and block content (bounded sample in quick), in a block or an inline box, and random mixtures.",
    "C10": "White space at both sides of every kind of boundary, exhaustively over a small alphabet, and random contents.",
    "C11": "All combinations of width, margins and padding from a list in containers of several widths, and random trees; comparison of x and width. WidthEquation is an invariant of the specification itself.",
    "C12": "Pairs of blocks with all combinations of margins from a list (sampled in quick), and random trees with text; comparison of y and height.",
    "C13": "All combinations of the four offsets and of the height of the parent, and random trees. Percentages of top and bottom on inline boxes are left out.",
    "C14": "All combinations of offsets, size and margins of an axis (each axis at least twice, combined at random), and random nesting of positioned boxes.",
    "C15": "The same words at many widths, and random nested inline boxes; documents where a break is decided by less than 24/10240 px are skipped and counted.",
    "C24": "Every character map the specification enumerates, with five ways to assign glyphs, placed at 0, around the surrogates and at the ends of the ranges, as real fonts; random larger maps up to 300 segments, several subtables, existing fonts.",
    "C25": "Three small fonts cut at every length and with every byte and field changed (sampled in quick), several changes at once, random bytes, disordered and huge maps. Where the specification says that something needed is outside the data, an error is required; where the file is sound, the values; where the format's own rules are broken, any answer within 40 s.",
    "C22": "Every text of up to 3 segments (4 in thorough) with widths 0 to 3 on small pages, random and long texts of all sorts of characters, in sizes that are exact in binary so that every comparison (page full or not) includes ties. Where lines end within a paragraph is left open here.",
    "C23": "The same layouts; every line must take what fits, ties included, and be spread exactly. Break opportunities are those of xi-unicode, which the code asks. A line that only holds segments without width may or may not be followed by a segment too wide for it.",
    "C26": "The real code reads and writes through streams that log their calls and follow scripts: every kind of failure at every call, short transfers, interruptions; images cut at every length and with every byte changed; named files with room for every kind of number of bytes. Pixels are compared with the specification and with an independent PNG reader. Trusts libpng and cairo to do as they are told; 8-bit images only.",
    "C27": "Every history of 3 operations (4 in thorough) on documents of 0 to 3 (4) pages, random ones on nested page trees up to 60 (200) pages. Trusts poppler to read the documents.",
    "C29": "Random pages of opaque rectangles, partly with edges on pixel boundaries, at equal and unequal scales; every pixel without an edge inside is compared. Trusts poppler to paint rectangles.",
    "C30": "Random HTML and XML documents with links and style sheets anywhere, in the wrong name spaces, in parts of the tree that are removed later, with every kind of type attribute and with comments, CDATA sections and elements inside style elements. TLC replays the parser's operations and compares the links in order, and the value of one property that the last style sheet with an effect decides.",
    "C31": "Random documents with large letters whose shapes are rectangles, translucent colours, overlaps and offsets, documents that use everything, and texts of all characters of the font; some 70 pixels of each, around edges and glyphs and at random. Trusts poppler to read and paint, and lester to give the pixels (C29).",
    "C28": "All pairs of 137 pieces of markup, 149 of CSS and 44 extreme declarations (sampled in quick), random sequences up to 40 pieces, byte mutations, large inputs. Termination is a limit of 60 s. The harness is a debug build with overflow checks.",
    "C16": "Schedules of small sibling lists exhaustively (the real joins are compared with the schedule followed), drawn at random for larger documents; real pools of 1 to 31 threads with delays, repeated renderings, new processes with unmodified rayon, several renderers at once. rayon-core's join is the only point of control: orders of memory accesses within a leaf are not explored.",
    "C17": "TLC explores the writer design exhaustively within small constants; every file written by the real code for a family of API histories (0 to 257 pages, sizes around powers of ten up to 17 MB, random histories) is read back by an independent strict reader and its structure validated event by event. Trusts the reader in lib/pdfread.py.",
    "C18": "Every history of page/colour/paint calls up to 6 calls (7 in thorough) over 5 colours is enumerated by TLC from the specification and replayed in the real code, with random longer histories; what a reader sees of the pages must be the abstract document.",
    "C19": "Histories of text calls over 10 fonts (real and synthetic, including >256 glyphs, exactly 100 entries, beyond the BMP, advances of many ems, equal names) are replayed and the fonts of the written file validated against the specification. Widths are compared to the thousandth.",
    "C20": "A lexical automaton for numbers, names and strings in TLA+ reads every token recorded from real files; floats of every exponent, every byte in names and strings.",
    "C21": "Writer design checked exhaustively for any pattern of short writes, interruptions and failures; the real writer is run with a failure at every byte position and call, and the recorded attempts validated.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.MODULES:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           technique=TECH[run.MODULES[i]], level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py setup",
         hooks=dict(guard="--cfg victor_verif", enable="RUSTFLAGS='--cfg victor_verif' cargo build (done by lib/vlib.py; falls back to a build without)",
                    source_commits=[os.popen("git -C /repo log --format=%h --grep='^Hook for verification' | tr '\\n' ' '").read().split()][0]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
