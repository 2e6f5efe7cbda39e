----------------------------- MODULE PdfDocTrace ----------------------------
(***************************************************************************)
(* Trace specification for victor::pdf (C17 pages, C18 painting, C19 fonts).*)
(* Each trace is one history of API calls made on the real code, followed   *)
(* by what an independent PDF reader found in the file it wrote.  The calls *)
(* drive the abstract document; the final `doc` event is enabled only if    *)
(* the observed document is the abstract one.  A trace that is not accepted *)
(* leaves the specification in a deadlock.                                  *)
(*                                                                          *)
(* All numbers are integers: positions and sizes in 1/64 px, colours in     *)
(* millionths, opacity in 1/1048560.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile, FontFile,
          Aspects   \* which properties this run decides: subset of {"pages", "paint", "fonts"}

Traces == ndJsonDeserialize(TraceFile)
Fonts == ndJsonDeserialize(FontFile)   \* [map |-> <<<<char, glyph>>, ..>>, adv, upem, count]

VARIABLES t, l, pages, open, cur, color, alpha, bad,
          failed   \* how many texts were refused: their font cannot be embedded
vars == <<t, l, pages, open, cur, color, alpha, bad, failed>>

Opaque == 1048560
Black == <<0, 0, 0>>
Clamp(a) == IF a < 0 THEN 0 ELSE IF a > Opaque THEN Opaque ELSE a

Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ pages = <<>> /\ open = FALSE /\ cur = [w |-> 0, h |-> 0, items |-> <<>>]
        /\ color = Black /\ alpha = Opaque /\ bad = "" /\ failed = 0

Ev == Traces[t].ev[l]
IsEvent(op) == bad = "" /\ l <= Len(Traces[t].ev) /\ Ev.op = op /\ l' = l + 1 /\ t' = t

\* Fonts: map is a sequence of <<char, glyph>> sorted by char; binary search
RECURSIVE Search(_, _, _, _)
Search(m, c, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET mid == (lo + hi) \div 2
       IN IF m[mid][1] = c THEN m[mid][2]
          ELSE IF m[mid][1] < c THEN Search(m, c, mid + 1, hi)
          ELSE Search(m, c, lo, mid - 1)
GlyphOf(f, c) == LET m == Fonts[f].map IN Search(m, c, 1, Len(m))

AddPage ==
  /\ IsEvent("page")
  /\ pages' = IF open THEN Append(pages, cur) ELSE pages
  /\ open' = TRUE
  /\ cur' = [w |-> Ev.w, h |-> Ev.h, items |-> <<>>]
  /\ color' = Black /\ alpha' = Opaque
  /\ UNCHANGED <<bad, failed>>

SetColor ==
  /\ IsEvent("color") /\ open
  /\ color' = Ev.c /\ alpha' = Clamp(Ev.a)
  /\ UNCHANGED <<pages, open, cur, bad, failed>>

PaintRectangle ==
  /\ IsEvent("rect") /\ open
  /\ cur' = [cur EXCEPT !.items = Append(@, [k |-> "rect", c |-> color, a |-> alpha, n |-> Ev.n])]
  /\ UNCHANGED <<pages, open, color, alpha, bad, failed>>

\* A text that is built in steps: append a run of characters, one character, save the state reached, or go back to one.
\* Going back forgets what came after; the saved point can be used again, those saved after it cannot.
RECURSIVE Built(_, _, _, _)
Built(steps, k, chars, saved) ==
  IF k > Len(steps) THEN chars
  ELSE LET s == steps[k]
       IN CASE s.k \in {"a", "c"} -> Built(steps, k + 1, chars \o s.t, saved)
            [] s.k = "s" -> Built(steps, k + 1, chars, Append(saved, chars))
            [] s.k = "r" -> Built(steps, k + 1, saved[s.n], SubSeq(saved, 1, s.n))
            [] s.k = "k" -> Built(steps, k + 1, chars, saved)
CharsOf(e) == IF "steps" \in DOMAIN e THEN Built(e.steps, 1, <<>>, <<>>) ELSE e.chars

ShowText ==
  /\ IsEvent("text") /\ open /\ ~Fonts[Ev.font].bad
  /\ cur' = [cur EXCEPT !.items = Append(@,
        [k |-> "text", c |-> color, a |-> alpha, n |-> Ev.n, font |-> Ev.font,
         g |-> LET chars == CharsOf(Ev) IN [i \in DOMAIN chars |-> GlyphOf(Ev.font, chars[i])]])]
  /\ UNCHANGED <<pages, open, color, alpha, bad, failed>>

\* An error, every time, and nothing shown
RefuseText ==
  /\ IsEvent("text") /\ open /\ Fonts[Ev.font].bad
  /\ failed' = failed + 1
  /\ UNCHANGED <<pages, open, cur, color, alpha, bad>>

-----------------------------------------------------------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol

Expected == IF open THEN Append(pages, cur) ELSE pages

PagesMatch(obs) ==
  /\ Len(obs.pages) = Len(Expected)
  /\ \A p \in DOMAIN Expected :
       /\ Abs(obs.pages[p].w - Expected[p].w) <= 1
       /\ Abs(obs.pages[p].h - Expected[p].h) <= 1
       /\ Len(obs.pages[p].items) = Len(Expected[p].items)
       /\ \A i \in DOMAIN Expected[p].items :
            /\ obs.pages[p].items[i].k = Expected[p].items[i].k
            /\ Near(obs.pages[p].items[i].n, Expected[p].items[i].n, 1)

PaintMatch(obs) ==
  /\ Len(obs.pages) = Len(Expected)
  /\ \A p \in DOMAIN Expected :
       /\ Len(obs.pages[p].items) = Len(Expected[p].items)
       /\ \A i \in DOMAIN Expected[p].items :
            LET o == obs.pages[p].items[i] x == Expected[p].items[i]
            IN /\ o.k = x.k /\ Near(o.n, x.n, 1)
               /\ Near(o.c, x.c, 1)
               /\ Abs(o.a - x.a) <= 17

\* obs.fonts: the fonts of the file, each [file |-> index of the given font with the same bytes
\* (0: none), widths, uni |-> <<<<glyph, char>>, ..>>, blocks, used |-> glyphs to look up]
FontsMatch(obs) ==
  /\ Len(obs.pages) = Len(Expected)
  /\ \A p \in DOMAIN Expected :
       /\ Len(obs.pages[p].items) = Len(Expected[p].items)
       /\ \A i \in DOMAIN Expected[p].items :
            LET o == obs.pages[p].items[i] x == Expected[p].items[i]
            IN /\ o.k = x.k
               /\ (x.k = "text" =>
                     /\ o.g = x.g
                     /\ Near(o.n, x.n, 1)
                     /\ o.font \in DOMAIN obs.fonts
                     /\ obs.fonts[o.font].file = x.font)
  \* embedded once: no two font resources have the same font, none is left out
  /\ \A f, g \in DOMAIN obs.fonts : f # g => obs.fonts[f].file # obs.fonts[g].file
  /\ {obs.fonts[f].file : f \in DOMAIN obs.fonts} =
       UNION {{Expected[p].items[i].font : i \in {j \in DOMAIN Expected[p].items : Expected[p].items[j].k = "text"}}
               : p \in DOMAIN Expected}
  /\ obs.files = Len(obs.fonts)
  /\ \A f \in DOMAIN obs.fonts :
       LET o == obs.fonts[f] x == Fonts[o.file]
       IN /\ o.length1 = x.size
          /\ o.nameok
          \* advance widths, in thousandths
          /\ Len(o.widths) = x.count
          /\ \A g \in DOMAIN o.widths : Abs(o.widths[g] - (x.adv[g] * 1000) \div x.upem) <= 1
          \* the bounding box, ascent and descent of the font, in thousandths
          /\ Len(o.metrics) = 6
          /\ \A k \in 1..6 : Abs(o.metrics[k] - (x.metrics[k] * 1000) \div x.upem) <= 1
          \* ToUnicode: at most 100 entries per block; every entry is right
          /\ \A b \in DOMAIN o.blocks : o.blocks[b] >= 1 /\ o.blocks[b] <= 100
          /\ \A e \in DOMAIN o.uni : GlyphOf(o.file, o.uni[e][2]) = o.uni[e][1]
          \* every glyph shown for a character of the font has an entry
          /\ \A p \in DOMAIN Expected : \A i \in DOMAIN Expected[p].items :
               LET it == Expected[p].items[i]
               IN (it.k = "text" /\ it.font = o.file) =>
                     \A q \in DOMAIN it.g : it.g[q] # 0 =>
                        \E e \in DOMAIN o.uni : o.uni[e][1] = it.g[q]

Document ==
  /\ IsEvent("doc")
  /\ LET b == IF Ev.error # "" THEN Ev.error
              ELSE IF Ev.failed # failed THEN "errors"
              ELSE IF "pages" \in Aspects /\ ~PagesMatch(Ev) THEN "pages"
              ELSE IF "paint" \in Aspects /\ ~PaintMatch(Ev) THEN "paint"
              ELSE IF "fonts" \in Aspects /\ ~FontsMatch(Ev) THEN "fonts"
              ELSE ""
     IN bad' = b
  /\ UNCHANGED <<pages, open, cur, color, alpha, failed>>

Done == bad = "" /\ l = Len(Traces[t].ev) + 1 /\ UNCHANGED vars

Next == AddPage \/ SetColor \/ PaintRectangle \/ ShowText \/ RefuseText \/ Document \/ Done
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
=============================================================================
