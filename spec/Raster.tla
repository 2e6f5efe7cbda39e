------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Rendering a page to an image (lester/src/poppler.rs).  The page is W by  *)
(* H points, a point is 4/3 px, and a px is sx by sy pixels of the image.   *)
(* All lengths are in units of 1/U point; scales in 1/1024.                 *)
(* The page shows rectangles [x, y, w, h, c] (y from the bottom, as in PDF) *)
(* painted in order.  What shows at a pixel is decided by its edges: when   *)
(* no edge crosses the pixel, the last rectangle over it, or the backdrop.  *)
(* A pixel with an edge inside, of the page too, is left open; nothing      *)
(* shows outside of the page.                                               *)
(* What is stored is a part `box` of the plane (x0, y0, w, h), turned       *)
(* clockwise by a multiple of 90 degrees; a rectangle may be an annotation, *)
(* which shows on the screen, in print, on both or neither.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT U

\* n/d rounded up, for n >= 0
Up(n, d) == (n + d - 1) \div d
\* ceil(length * 4/3 * scale/1024)
Pixels(length, scale) == Up(length * 4 * scale, 3 * 1024 * U)
\* With floats, what comes out whole may come out one larger
Sizes(length, scale) ==
    {Pixels(length, scale)} \cup
        (IF (length * 4 * scale) % (3 * 1024 * U) = 0 THEN {Pixels(length, scale) + 1} ELSE {})

\* The edge at `at` of the page, in pixels times D
D == 3 * 1024 * U
Edge(at, scale) == at * 4 * scale
\* Relation of pixel p (p*D .. (p+1)*D) to from..to: 1 inside, 0 outside, -1 crossed
Cover(p, from, to) ==
    IF from <= p * D /\ (p + 1) * D <= to THEN 1
    ELSE IF to <= p * D \/ (p + 1) * D <= from THEN 0
    ELSE -1
RectCover(r, px, py, height, sx, sy) ==
    LET cx == Cover(px, Edge(r.x, sx), Edge(r.x + r.w, sx))
        cy == Cover(py, Edge(height - r.y - r.h, sy), Edge(height - r.y, sy))
    IN IF cx = 0 \/ cy = 0 THEN 0 ELSE IF cx = 1 /\ cy = 1 THEN 1 ELSE -1

\* The rectangle r of a page w by h as the page is turned once, clockwise
Quarter(r, w) == [r EXCEPT !.x = r.y, !.y = w - r.x - r.w, !.w = r.h, !.h = r.w]
RECURSIVE Turned(_, _)
Turned(page, n) ==
    IF n = 0 THEN page
    ELSE Turned([w |-> page.h, h |-> page.w, rects |-> [k \in DOMAIN page.rects |-> Quarter(page.rects[k], page.w)]], n - 1)
\* The page as it is looked at
Seen(stored, printing) ==
    LET shows(r) == IF printing THEN r.print ELSE r.screen
        here == SelectSeq(stored.rects, shows)
        moved == [k \in DOMAIN here |-> [here[k] EXCEPT !.x = @ - stored.box.x, !.y = @ - stored.box.y]]
    IN Turned([w |-> stored.box.w, h |-> stored.box.h, rects |-> moved], stored.turns)

OpenColour == <<-1, -1, -1, -1>>
RECURSIVE ShownFrom(_, _, _, _)
\* From rect k down: the colour of the topmost that covers, <<-1>> when open
ShownFrom(rects, k, cover(_), backdrop) ==
    IF k = 0 THEN backdrop
    ELSE LET v == cover(rects[k]) IN
         IF v = 1 THEN rects[k].c ELSE IF v = -1 THEN OpenColour
         ELSE ShownFrom(rects, k - 1, cover, backdrop)
Shown(page, px, py, sx, sy, backdrop) ==
    LET cover(r) == RectCover(r, px, py, page.h, sx, sy)
        onPage == RectCover([x |-> 0, y |-> 0, w |-> page.w, h |-> page.h], px, py, page.h, sx, sy)
    IN IF onPage = 1 THEN ShownFrom(page.rects, Len(page.rects), cover, backdrop)
       ELSE IF onPage = 0 THEN backdrop ELSE OpenColour
=============================================================================
