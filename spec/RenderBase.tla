----------------------------- MODULE RenderBase -----------------------------
(***************************************************************************)
(* State shared by the specification of rendering (an abstract document to  *)
(* what is painted on the page), see Render.tla.                            *)
(*                                                                          *)
(* Lengths are integers in U = 1/10240 px (1/8 px, with PX <- LargePX).      *)
(* Numbers, em lengths and fractions (percentages) are in thousandths.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS TraceFile,  \* one document and what the real code painted for it per line
          FontFile    \* glyphs and advances of the one font

Traces == ndJsonDeserialize(TraceFile)
Font == ndJsonDeserialize(FontFile)[1]   \* [g |-> glyph by char + 1, adv, asc, upem]

VARIABLES
  t,        \* which document
  phase,    \* "style", "boxes", "layout", "paint", "compare", "done"
  style,    \* computed values of the elements styled so far, by node (<<>> for others)
  boxes,    \* block containers built so far, by element
  queue,    \* elements that need a block container
  frags,    \* laid out fragments of the page
  list,     \* display list of the page
  verdict   \* "": not compared yet
vars == <<t, phase, style, boxes, queue, frags, list, verdict>>

Doc == Traces[t]
Nodes == Doc.nodes
Root == 1
Elem(e) == Nodes[e].k = "e"

PX == 10240
LargePX == 8       \* in the documents with very large lengths
PageW == 600 * PX
PageH == 800 * PX
AUTO == -2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* w * n / 1000 without overflow
Mul(w, n) == w * (n \div 1000) + (w \div 1000) * (n % 1000) + ((w % 1000) * (n % 1000)) \div 1000
\* w * n / 2048 without overflow
MulEm(n, fs) == n * (fs \div 2048) + (n * (fs % 2048)) \div 2048
=============================================================================
