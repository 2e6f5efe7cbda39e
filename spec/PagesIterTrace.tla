-------------------------- MODULE PagesIterTrace --------------------------
(***************************************************************************)
(* Histories of the real iterator.  Every page given must be the page of    *)
(* that index: its size in points (thousandths), that size in px, its text. *)
(* Docs: [pages |-> sequence of [w, h, text], pdf |-> whether it is a PDF,  *)
(* producer |-> sequence of the UTF-16 units of the producer, at most one]  *)
(* Traces: [doc, steps]; steps[k] = [op, k, pages, number, said], pages     *)
(* those given, each [w, h, pw, ph, text]; said like the producer           *)
(***************************************************************************)
EXTENDS PagesIter, TLC, Json, Integers
CONSTANTS DocFile, TraceFile
Docs == ndJsonDeserialize(DocFile)
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, why
vars == <<pVars, t, l, why>>
Doc == Docs[Traces[t].doc].pages
Steps == Traces[t].steps
Init == t \in DOMAIN Traces /\ l = 1 /\ count = Len(Doc) /\ why = "" /\ PInit

Near(a, b, e) == a - b <= e /\ b - a <= e
\* 72 points are 96 px
IsPage(got, i) ==
    LET p == Doc[i + 1] IN
    /\ Near(got.w, p.w, 1) /\ Near(got.h, p.h, 1) /\ got.text = p.text
    /\ Near(3 * got.pw, 4 * p.w, 8) /\ Near(3 * got.ph, 4 * p.h, 8)

S == Steps[l]
Does ==
    CASE S.op = "open" -> ~gone /\ answer' = [Quiet EXCEPT !.number = IF Docs[Traces[t].doc].pdf THEN 1 ELSE 0]
                           /\ UNCHANGED <<count, lo, hi, gone>>
      [] S.op \in {"f", "n"} -> Front(S.k)
      [] S.op \in {"b", "m"} -> Back(S.k)
      [] S.op \in {"l", "h"} -> Length
      [] S.op = "c" -> Count
      [] S.op = "L" -> Last
      [] S.op = "r" -> Reversed
      \* "d" looks at them when the document is closed
      [] S.op \in {"a", "d"} -> All
      [] S.op = "p" -> answer' = Quiet /\ UNCHANGED <<count, lo, hi, gone>>
      [] S.op = "s" -> StepBy(S.k)
Step ==
    /\ why = "" /\ l <= Len(Steps)
    /\ Does
    /\ why' = IF S.number # answer'.number THEN "it said " \o ToString(S.number) \o " instead of " \o ToString(answer'.number)
              ELSE IF Len(S.pages) # Len(answer'.pages) THEN "it gave " \o ToString(Len(S.pages)) \o " pages instead of " \o ToString(Len(answer'.pages))
              ELSE IF S.op = "p" /\ S.said # Docs[Traces[t].doc].producer THEN "another producer"
              ELSE IF \E j \in DOMAIN S.pages : ~IsPage(S.pages[j], answer'.pages[j]) THEN "a page given is not that page of the document"
              ELSE ""
    /\ l' = l + 1 /\ UNCHANGED t
Over == (why # "" \/ l > Len(Steps)) /\ UNCHANGED vars
Next == Step \/ Over
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
