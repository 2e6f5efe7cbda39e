------------------------------ MODULE PlainText ------------------------------
(***************************************************************************)
(* Plain-text layout (victor::text_plain, C22 and C23): a text is a         *)
(* sequence of segments, each ending at a place where the text allows or    *)
(* demands a line break.  Lines are filled one segment at a time; finished  *)
(* lines are placed on pages.  All lengths are exact integers.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* The document: a constant of each behaviour
\*   doc.segs      sequence of [w |-> width, hard |-> BOOLEAN, …]
\*   doc.avail     width between the margins
\*   doc.minY, doc.maxY, doc.lh    top and bottom margins, line height
\*   doc.justify
VARIABLES doc,
          i,       \* the next segment to place
          from,    \* the first segment of the line being filled
          width,   \* the total width of segments from .. i-1
          page, y, \* where the line being filled goes
          done
lay == <<doc, i, from, width, page, y, done>>

N == Len(doc.segs)
Filling == from < i

LayInit == i = 1 /\ from = 1 /\ width = 0 /\ page = 1 /\ y = doc.minY /\ done = FALSE

\* What a finished line  a .. b  looks like
Spread(a, b, w, hard) == IF doc.justify /\ ~hard /\ doc.avail > w THEN doc.avail - w ELSE 0

\* The line from .. b is finished, and placed at (page, y)
EndLine(b, w) ==
    /\ from' = b + 1 /\ i' = b + 1 /\ width' = 0
    /\ IF y + doc.lh > doc.maxY /\ b < N
       THEN page' = page + 1 /\ y' = doc.minY
       ELSE page' = page /\ y' = y + doc.lh
    /\ done' = (b = N)
    /\ UNCHANGED doc

Fits == width + doc.segs[i].w <= doc.avail
\* A line takes at least one segment; and as long as it holds nothing that has a width,
\* it is not said whether a segment that is too wide for it goes on a line of its own
MustTake == ~Filling \/ Fits
MayTake  == MustTake \/ width = 0

\* Take a segment after which the line need not end
Take ==
    /\ ~done /\ i <= N /\ ~doc.segs[i].hard
    /\ i' = i + 1 /\ width' = width + doc.segs[i].w
    /\ UNCHANGED <<doc, from, page, y, done>>
\* Take a segment that ends the line, by mandate
TakeHard == ~done /\ i <= N /\ doc.segs[i].hard /\ EndLine(i, width + doc.segs[i].w)
\* The line ends before segment i
Wrap == ~done /\ i <= N /\ Filling /\ EndLine(i - 1, width)
\* An empty text: one page without lines
Nothing == ~done /\ N = 0 /\ done' = TRUE /\ UNCHANGED <<doc, i, from, width, page, y>>
=============================================================================
