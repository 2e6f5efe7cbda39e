--------------------------- MODULE PlainTextTrace ---------------------------
(***************************************************************************)
(* Layouts recorded from the real code, read back from the PDF: for each    *)
(* glyph painted, in order, [p, x, y, g] (page, position, glyph).           *)
(* Aspect "pages" (C22): where lines end inside a paragraph is left open,   *)
(*   positions across the line too.  The segments are single characters.    *)
(* Aspect "lines" (C23): filling and spreading; which page and height a     *)
(*   line is on is left open.                                               *)
(* segs[k] = [w, hard, g |-> sequence of <<glyph, offset in segment>>] *)
(***************************************************************************)
EXTENDS PlainText, TLC, Json
CONSTANTS TraceFile, Aspect, Tolerance
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t,
          l    \* the first recorded glyph of the line being filled
vars == <<lay, t, l>>
Pages == Aspect = "pages"

Rec == Traces[t].glyphs
Init ==
    /\ t \in DOMAIN Traces
    /\ doc = Traces[t].doc
    /\ l = 1
    /\ LayInit

RECURSIVE Count(_, _)
Count(a, b) == IF a > b THEN 0 ELSE Len(doc.segs[a].g) + Count(a + 1, b)
\* The recorded glyph that would be the first of segment i
Ahead == l + Count(from, i - 1)
SamePlace(k, m) == Rec[k].p = Rec[m].p /\ Rec[k].y = Rec[m].y
\* It is painted on the line being filled
OnLine == \/ Ahead = l \/ Len(doc.segs[i].g) = 0
          \/ /\ Ahead <= Len(Rec) /\ SamePlace(l, Ahead)
             /\ (Pages => Rec[Ahead].x >= Rec[Ahead - 1].x)

Abs(v) == IF v < 0 THEN -v ELSE v

\* The glyphs of a .. b are recorded from l on, with the k-th gap of n taking its share of extra
RECURSIVE Painted(_, _, _, _, _, _, _)
Painted(a, b, at, x, gap, n, extra) ==
    IF a > b THEN TRUE
    ELSE LET g == doc.segs[a].g
             off(j) == g[j][2]
         IN /\ at + Len(g) - 1 <= Len(Rec)
            /\ \A j \in 1..Len(g) :
                  LET r == Rec[at + j - 1] IN
                  /\ r.g = g[j][1]
                  /\ IF Pages THEN r.p = page /\ r.y = y + doc.base
                     ELSE /\ SamePlace(at + j - 1, l)
                          /\ IF n = 0 THEN r.x = x + off(j)
                             ELSE Abs((r.x - x - off(j)) * n - extra * gap) <= Tolerance * n
            /\ Painted(a + 1, b, at + Len(g), x + doc.segs[a].w, gap + 1, n, extra)

PaintLine(b, w, hard) ==
    LET extra == IF Pages THEN 0 ELSE Spread(from, b, w, hard) IN
    /\ Painted(from, b, l, doc.minX, 0, IF extra = 0 THEN 0 ELSE b - from, extra)
    /\ l' = l + Count(from, b)
    /\ (b = N => l' = Len(Rec) + 1 /\ (Pages => Traces[t].pages = page))

Step(A) == A /\ t' = t
MayStay == IF Pages THEN Filling => OnLine ELSE MustTake \/ (MayTake /\ OnLine)
DoTake     == i <= N /\ ~done /\ MayStay /\ Step(Take) /\ l' = l
DoTakeHard == i <= N /\ ~done /\ MayStay /\ Step(TakeHard) /\ PaintLine(i, width + doc.segs[i].w, TRUE)
DoWrap     == i <= N /\ ~done /\ ~MayStay /\ Step(Wrap) /\ PaintLine(i - 1, width, FALSE)
DoNothing  == Step(Nothing) /\ Len(Rec) = 0 /\ l' = l /\ (Pages => Traces[t].pages = 1)
Finished   == done /\ UNCHANGED vars
Next == DoTake \/ DoTakeHard \/ DoWrap \/ DoNothing \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
