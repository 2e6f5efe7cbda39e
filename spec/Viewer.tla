------------------------------- MODULE Viewer --------------------------------
(***************************************************************************)
(* What a reader of PDF files shows and reads of a rendered document.       *)
(*                                                                          *)
(* The document goes through Render.tla up to its display list.  The file   *)
(* made of it is opened by Poppler (through lester), which gives an image   *)
(* and the text of the page.  What may show at a pixel is an interval for   *)
(* each of red, green and blue: starting from white each item of the list   *)
(* is laid over it, entirely where it covers the pixel, to any degree where *)
(* one of its edges crosses the pixel.  Some glyphs are rectangles: these   *)
(* are known exactly.  Others show anywhere near their origin, to any       *)
(* degree.                                                                  *)
(* Doc.look = [w, h, scale, pages, px, text]: size of the image, pixels to  *)
(* a px, pages in the file, px[k] = <<x, y, r, g, b>> with x, y from the    *)
(* top left corner, text the glyphs of the text that was read, in order.    *)
(* Font.gadv[g+1], Font.ink[g+1]: advance of glyph g, its ink as <<x0, y0,  *)
(* x1, y1>>, <<>> for none and <<0>> for any other shape.                   *)
(***************************************************************************)
EXTENDS Render

Look == Doc.look
U == 10240 \div Look.scale       \* a pixel
Slack == 512                     \* for coordinates written with few digits: 1/20 px
GlyphSlack == U + U \div 4       \* glyphs are placed on whole pixels

\* 1: the pixel is inside of from..to, 0: outside, -1: an edge is in it
Cover(p, from, to, e) ==
  IF (p + 1) * U <= from - e \/ to + e <= p * U THEN 0
  ELSE IF from + e <= p * U /\ (p + 1) * U <= to - e THEN 1
  ELSE -1
CoverSpan(p, from, extent) ==
  IF extent < 0 THEN Cover(p, from + extent, from, Slack) ELSE Cover(p, from, from + extent, Slack)
Both(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 1 /\ b = 1 THEN 1 ELSE -1

\* A colour over another, in sixteenths
Mix(v, c, a) == (c * 16 * a + v * (255 - a)) \div 255
Over(iv, c, a, cover) ==
  LET lo == Mix(iv.lo, c, a) hi == Mix(iv.hi, c, a)
  IN IF cover = 0 THEN iv
     ELSE IF cover = 1 THEN [lo |-> lo, hi |-> hi]
     ELSE [lo |-> IF lo < iv.lo THEN lo ELSE iv.lo, hi |-> IF hi > iv.hi THEN hi ELSE iv.hi]
Channel(c, k) == IF k = 1 THEN c \div 65536 ELSE IF k = 2 THEN (c \div 256) % 256 ELSE c % 256
OverAll(ivs, item, cover) ==
  IF cover = 0 THEN ivs ELSE [k \in 1..3 |-> Over(ivs[k], Channel(item.c, k), item.a, cover)]

\* Readers of the file know advances in whole thousandths of an em
Ahead(g, size) == (((1000 * Font.gadv[g + 1]) \div Font.upem) * (size \div 100)) \div 10
GlyphCover(g, x, y, size, px, py) ==
  LET ink == Font.ink[g + 1] IN
  IF ink = <<>> THEN 0
  ELSE IF Len(ink) = 1
  THEN IF Cover(px, x - size, x + Ahead(g, size) + size, 0) # 0 /\ Cover(py, y - 2 * size, y + size, 0) # 0 THEN -1 ELSE 0
  ELSE Both(Cover(px, x + MulEm(ink[1], size), x + MulEm(ink[3], size), GlyphSlack),
            Cover(py, y - MulEm(ink[4], size), y - MulEm(ink[2], size), GlyphSlack))

RECURSIVE Covers(_, _, _, _, _)
\* How each glyph of a run covers the pixel, without those that do not
Covers(item, i, x, px, py) ==
  IF i > Len(item.g) THEN <<>>
  ELSE LET v == GlyphCover(item.g[i], x, item.y, item.w, px, py)
       IN (IF v = 0 THEN <<>> ELSE <<v>>) \o Covers(item, i + 1, x + Ahead(item.g[i], item.w), px, py)
RECURSIVE Times(_, _, _)
Times(ivs, item, n) == IF n = 0 THEN ivs ELSE Times(OverAll(ivs, item, -1), item, n - 1)
\* Glyphs that overlap each other may be laid over one by one or at once
Glyphs(ivs, item, px, py) ==
  LET cs == Covers(item, 1, item.x, px, py)
  IN IF cs = <<>> THEN ivs
     ELSE Times(OverAll(ivs, item, IF 1 \in {cs[i] : i \in DOMAIN cs} THEN 1 ELSE -1), item, Len(cs) - 1)

RECURSIVE Layered(_, _, _, _)
Layered(ivs, i, px, py) ==
  IF i > Len(Expected) THEN ivs
  ELSE LET x == Expected[i]
       IN Layered(IF x.k = "rect"
                  THEN OverAll(ivs, x, Both(CoverSpan(px, x.x, x.w), CoverSpan(py, x.y, x.h)))
                  ELSE Glyphs(ivs, x, px, py), i + 1, px, py)
White == [lo |-> 255 * 16, hi |-> 255 * 16]
May(px, py) == Layered(<<White, White, White>>, 1, px, py)
Rounding == 3 * 16
Fits(p) ==
  LET m == May(p[1], p[2])
  IN \A k \in 1..3 : 16 * p[k + 2] >= m[k].lo - Rounding /\ 16 * p[k + 2] <= m[k].hi + Rounding

-----------------------------------------------------------------------------
(* The text that is read: that of the page, when no text is over another or *)
(* leaves the page.  (Spaces are up to the reader.)                         *)

Texts == SelectSeq(Expected, LAMBDA i : i.k = "text")
RECURSIVE Extent(_, _)
Extent(g, size) == IF g = <<>> THEN 0 ELSE Ahead(Head(g), size) + Extent(Tail(g), size)
Left(i) == i.x - i.w \div 4
Right(i) == i.x + Extent(i.g, i.w) + i.w \div 4
Top(i) == i.y - (5 * i.w) \div 4
Bottom(i) == i.y + i.w \div 2
Apart(i, j) == Right(i) <= Left(j) \/ Right(j) <= Left(i) \/ Bottom(i) <= Top(j) \/ Bottom(j) <= Top(i)
Legible ==
  /\ \A i \in DOMAIN Texts : LET x == Texts[i] IN
       x.w >= 40000 /\ Left(x) >= 0 /\ Right(x) <= PageW /\ Top(x) >= 0 /\ Bottom(x) <= PageH
  /\ \A i, j \in DOMAIN Texts : i < j => Apart(Texts[i], Texts[j])
\* (nor can the reader know what glyph 0 stands for)
Spaces == {0, GlyphOf(32), GlyphOf(160)}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s).g \o Join(Tail(s))
Written == SelectSeq(Join(Texts), LAMBDA g : g \notin Spaces)
\* Readers put texts in order by where they are
Count(s, g) == Len(SelectSeq(s, LAMBDA x : x = g))
SameText == \A g \in {Written[i] : i \in DOMAIN Written} \cup {Look.text[i] : i \in DOMAIN Look.text} :
              g \in Spaces \/ Count(Written, g) = Count(Look.text, g)

Whole(n) == {n, n + 1}
LookVerdict ==
  IF Doc.error # "" THEN Doc.error
  ELSE IF Ambiguous THEN "ambiguous"
  ELSE IF Look.pages # 1 THEN ToString(Look.pages) \o " pages"
  ELSE IF ~(Look.w \in Whole((PageW \div 10240) * Look.scale) /\ Look.h \in Whole((PageH \div 10240) * Look.scale))
  THEN "the image is " \o ToString(Look.w) \o " by " \o ToString(Look.h)
  ELSE LET bad == {i \in DOMAIN Look.px : ~Fits(Look.px[i])} IN
       IF bad # {}
       THEN LET p == Look.px[CHOOSE i \in bad : TRUE]
            IN "pixel " \o ToString(<<p[1], p[2]>>) \o " is " \o ToString(<<p[3], p[4], p[5]>>) \o ", not (in sixteenths) "
               \o ToString(May(p[1], p[2]))
       ELSE IF Legible /\ ~SameText THEN "another text is read: glyphs " \o ToString(Look.text) \o " instead of " \o ToString(Written)
       ELSE "conforms"

CompareLook ==
  /\ phase = "paint"
  /\ phase' = "done"
  /\ verdict' = LookVerdict
  /\ UNCHANGED <<t, style, boxes, queue, frags, list>>

ViewNext == StyleElement \/ StartBoxes \/ BuildContainer \/ Layout \/ Paint \/ CompareLook \/ Done
ViewSpec == Init /\ [][ViewNext]_vars
ReportLegible == phase = "done" => (~(verdict = "conforms" /\ Texts # <<>> /\ Legible) \/ PrintT("@@legible"))
=============================================================================
