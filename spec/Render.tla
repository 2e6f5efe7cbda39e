-------------------------------- MODULE Render ------------------------------
(***************************************************************************)
(* From an abstract document to what is painted on its page.                *)
(*                                                                          *)
(* Each behaviour takes one document through the cascade, element by        *)
(* element, box generation, container by container, layout and painting,    *)
(* and then compares the resulting display list with what the real code     *)
(* painted for that document.                                               *)
(***************************************************************************)
EXTENDS RenderLayout

CONSTANT Aspects   \* what to compare: subset of {"order", "x", "y"}

Init ==
  /\ t \in DOMAIN Traces
  /\ phase = "style" /\ style = <<>> /\ boxes = <<>> /\ queue = <<>>
  /\ frags = <<>> /\ list = <<>> /\ verdict = ""

-----------------------------------------------------------------------------
(* Painting (C08): backgrounds and texts in tree order *)

ColorAt(e, p) ==
  LET v == style[e][p] IN IF v.k = "cur" THEN style[e]["color"] ELSE v

PaintItem(k, e, x, y, w, h, c, g, amb) ==
  [k |-> k, e |-> e, x |-> x, y |-> y, w |-> w, h |-> h, c |-> c.n, a |-> c.a, g |-> g, amb |-> amb]
GlyphOf(c) == IF c < Len(Font.g) THEN Font.g[c + 1] ELSE 0

RECURSIVE PaintAll(_, _, _)
PaintFrag(f, ox, oy) ==
  LET x == ox + f.x y == oy + f.y
  IN IF f.k = "text"
     THEN <<PaintItem("text", f.e, x, y + MulEm(Font.asc, FontSize(f.e)), FontSize(f.e), 0,
                      ColorAt(f.e, "color"), [i \in DOMAIN f.s |-> GlyphOf(f.s[i])], f.amb)>>
     ELSE LET bg == IF f.k = "box" THEN ColorAt(f.e, "background-color") ELSE V("rgba", 0)
              l == f.pad.l + f.bor.l tt == f.pad.t + f.bor.t
          IN (IF bg.a = 0 THEN <<>>
              ELSE <<PaintItem("rect", f.e, x - l, y - tt, f.w + l + f.pad.r + f.bor.r, f.h + tt + f.pad.b + f.bor.b,
                               bg, <<>>, FALSE)>>)
             \o PaintAll(f.ch, x, y)
PaintAll(fs, ox, oy) == IF fs = <<>> THEN <<>> ELSE PaintFrag(Head(fs), ox, oy) \o PaintAll(Tail(fs), ox, oy)

Paint ==
  /\ phase = "layout"
  /\ phase' = "paint"
  /\ list' = PaintAll(frags, 0, 0)
  /\ UNCHANGED <<t, style, boxes, queue, frags, verdict>>

-----------------------------------------------------------------------------
(* Conformance of the real code *)

Tolerance == 256   \* 1/40 px
\* sums of many lengths are in single precision
Near(a, b) == Abs(a - b) <= Tolerance + Abs(a) \div 100000
LargeNear(a, b) == Abs(a - b) <= 40 + Abs(a) \div 500000

\* Empty texts paint nothing
Shown(s) == SelectSeq(s, LAMBDA i : i.k = "rect" \/ i.g # <<>>)
Expected == Shown(list)
Observed == Shown(Doc.items)
Ambiguous == \E i \in DOMAIN list : list[i].amb

SameLook(x, o) == x.k = o.k /\ x.c = o.c /\ Abs(x.a - o.a) <= 1 /\ x.g = o.g
SameX(x, o) == Near(x.x, o.x) /\ Near(x.w, o.w)
SameY(x, o) == Near(x.y, o.y) /\ Near(x.h, o.h)

\* Without "order", items are matched by kind and colour
Keys == {<<Expected[i].k, Expected[i].c>> : i \in DOMAIN Expected} \cup {<<Observed[i].k, Observed[i].c>> : i \in DOMAIN Observed}
Of(s, key) == SelectSeq(s, LAMBDA i : i.k = key[1] /\ i.c = key[2])
Geometry(x, o) ==
  IF "x" \in Aspects /\ ~SameX(x, o) THEN "x or width"
  ELSE IF "y" \in Aspects /\ ~SameY(x, o) THEN "y or height" ELSE ""

RECURSIVE FirstBad(_, _, _)
FirstBad(xs, os, i) ==
  IF i > Len(xs) THEN ""
  ELSE IF "order" \in Aspects /\ ~SameLook(xs[i], os[i]) THEN "item " \o ToString(i) \o " is not the one painted"
  ELSE LET g == Geometry(xs[i], os[i])
       IN IF g # "" THEN "item " \o ToString(i) \o " of element " \o ToString(xs[i].e) \o ": " \o g
          ELSE FirstBad(xs, os, i + 1)

Comparison ==
  IF Doc.error # "" THEN Doc.error
  ELSE IF Ambiguous THEN "ambiguous"
  ELSE IF "order" \in Aspects
  THEN IF Len(Expected) # Len(Observed) THEN "number of painted items"
       ELSE LET b == FirstBad(Expected, Observed, 1) IN IF b = "" THEN "conforms" ELSE b
  ELSE IF \E key \in Keys : Len(Of(Expected, key)) # Len(Of(Observed, key)) THEN "number of painted items"
       ELSE IF \E key \in Keys : FirstBad(Of(Expected, key), Of(Observed, key), 1) # ""
       THEN LET key == CHOOSE key \in Keys : FirstBad(Of(Expected, key), Of(Observed, key), 1) # ""
            IN ToString(key) \o " " \o FirstBad(Of(Expected, key), Of(Observed, key), 1)
       ELSE "conforms"

Compare ==
  /\ phase = "paint"
  /\ phase' = "done"
  /\ verdict' = Comparison
  /\ UNCHANGED <<t, style, boxes, queue, frags, list>>

Done == phase = "done" /\ UNCHANGED vars

Next == StyleElement \/ StartBoxes \/ BuildContainer \/ Layout \/ Paint \/ Compare \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

Conforms == verdict \in {"", "conforms", "ambiguous"}

\* For the statistics of a run
Report == phase = "done" => (verdict # "ambiguous" \/ PrintT("@@ambiguous"))

\* C11: for every block in normal flow the widths add up (checked on the fragments themselves)
RECURSIVE WidthsOk(_, _)
WidthsOk(fs, w) ==
  \A i \in DOMAIN fs :
    LET f == fs[i]
        outer == f.mar.l + f.bor.l + f.pad.l + f.w + f.pad.r + f.bor.r + f.mar.r
        inFlow == f.k = "box" /\ Display(f.e) \in {"block", "flow-root"} /\ Position(f.e) # "absolute"
    IN /\ inFlow => outer = w
       /\ f.k \in {"box", "anon"} => WidthsOk(f.ch, f.w)
WidthEquation == phase = "layout" => WidthsOk(frags, PageW)

\* C08: each visible character is painted once: the characters of the fragments are those of
\* the inline contents, without the spaces at which lines are broken
RECURSIVE TextLength(_)
TextLength(fs) == IF fs = <<>> THEN 0
                  ELSE Len(SelectSeq(Head(fs).s, LAMBDA c : c # 32)) + TextLength(Head(fs).ch) + TextLength(Tail(fs))
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumOver(S \ {x})
BoxedText(e) ==
  LET c == boxes[e]
      RECURSIVE n(_)
      n(items) == IF items = <<>> THEN 0
                  ELSE Len(SelectSeq(TextOf(Head(items).toks), LAMBDA x : x # 32)) + n(Tail(items))
  IN IF c.k = "ifc" THEN n(<<Item("anon", 0, c.toks)>>) ELSE n(c.list)
TextConserved ==
  phase = "layout" => TextLength(frags) = SumOver({<<e, BoxedText(e)>> : e \in DOMAIN boxes})

\* C08: one fragment of each block container that was built
RECURSIVE FragmentsOf(_, _)
FragmentsOf(fs, e) == IF fs = <<>> THEN 0
                      ELSE (IF Head(fs).k = "box" /\ Head(fs).e = e THEN 1 ELSE 0)
                           + FragmentsOf(Head(fs).ch, e) + FragmentsOf(Tail(fs), e)
BlocksOnce == phase = "layout" => \A e \in DOMAIN boxes : FragmentsOf(frags, e) = 1

\* C15: lines are stacked without gap; the boxes of a line are inside of it, one after the other
RECURSIVE LinesOk(_)
LinesOk(fs) ==
  \A i \in DOMAIN fs :
    LET ch == fs[i].ch
        lines == {j \in DOMAIN ch : ch[j].k = "anon" /\ \E m \in DOMAIN ch[j].ch : ch[j].ch[m].k = "text"}
    IN /\ \A j \in lines : j > 1 /\ (j - 1) \in lines => ch[j].y = ch[j - 1].y + ch[j - 1].h
       /\ LinesOk(ch)
LinesStacked == phase = "layout" => LinesOk(frags)
=============================================================================
