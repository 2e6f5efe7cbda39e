------------------------------- MODULE DomTrace ------------------------------
(***************************************************************************)
(* Replays the operations a parser asked for on the tree of Dom, then       *)
(* compares the tree with the document the real code built (the links of    *)
(* its nodes), and with what it painted when every element is a block with  *)
(* its own colour and indentation.                                          *)
(***************************************************************************)
EXTENDS Dom, Integers, TLC, Json

CONSTANTS TraceFile, FontFile
Traces == ndJsonDeserialize(TraceFile)
Font == ndJsonDeserialize(FontFile)[1]

VARIABLES
  t, i,
  data,     \* of each node: [k, s, attrs, txt]
  kids,     \* of each node: its children
  handle,   \* the node of each handle of the parser
  open,     \* XML: the open elements, innermost last
  verdict
vars == <<t, i, data, kids, handle, open, verdict>>

Doc == Traces[t]
Op == Doc.ops[i]

Datum(k, s, attrs, txt) == [k |-> k, s |-> s, attrs |-> attrs, txt |-> txt]

Init ==
  /\ t \in DOMAIN Traces
  /\ i = 1
  /\ data = <<Datum("D", <<>>, {}, <<>>)>>
  /\ kids = <<<<>>>>
  /\ handle = <<1>>
  /\ open = <<1>>
  /\ verdict = ""

Fresh == Len(data) + 1
More == verdict = "" /\ i <= Len(Doc.ops)
Is(name) == More /\ Op.op = name /\ i' = i + 1 /\ UNCHANGED <<t, verdict>>

\* A node that is not in the tree yet
Create(kind) ==
  /\ data' = Append(data, Datum(kind, Op.s, Range(Op.attrs), <<>>))
  /\ kids' = Append(kids, <<>>)
  /\ handle' = Append(handle, Fresh)
  /\ UNCHANGED open
CreateElement == Is("element") /\ Create("E")
CreateComment == Is("comment") /\ Create("C")
CreatePi == Is("pi") /\ Create("P")

\* Text becomes part of the text before the place where it is inserted, if there is one
AddText(before, place(_, _)) ==
  IF before # 0 /\ data[before].k = "T"
  THEN /\ data' = [data EXCEPT ![before].txt = @ \o Op.txt]
       /\ UNCHANGED kids
  ELSE /\ data' = Append(data, Datum("T", <<>>, {}, Op.txt))
       /\ kids' = place(Append(kids, <<>>), Fresh)

InsertLast(p) ==
  IF Op.n = 0 THEN AddText(LastChild(kids, p), LAMBDA k, n : AppendChild(k, p, n))
  ELSE kids' = AppendChild(kids, p, handle[Op.n]) /\ UNCHANGED data
InsertAtSibling(s) ==
  IF Op.n = 0 THEN AddText(PreviousSibling(kids, s), LAMBDA k, n : InsertBefore(k, s, n))
  ELSE kids' = InsertBefore(kids, s, handle[Op.n]) /\ UNCHANGED data

AppendOp == Is("append") /\ InsertLast(handle[Op.a]) /\ UNCHANGED <<handle, open>>
BeforeOp == Is("before") /\ InsertAtSibling(handle[Op.a]) /\ UNCHANGED <<handle, open>>
\* Foster parenting
BasedOp ==
  /\ Is("based")
  /\ IF Parent(kids, handle[Op.a]) # 0 THEN InsertAtSibling(handle[Op.a]) ELSE InsertLast(handle[Op.b])
  /\ UNCHANGED <<handle, open>>
DoctypeOp ==
  /\ Is("doctype")
  /\ data' = Append(data, Datum("Y", Op.s, {}, <<>>))
  /\ kids' = AppendChild(Append(kids, <<>>), 1, Fresh)
  /\ UNCHANGED <<handle, open>>
AttrsOp ==
  /\ Is("attrs")
  /\ LET n == handle[Op.a]
         known == {<<x[1], x[2]>> : x \in data[n].attrs}
     IN data' = [data EXCEPT ![n].attrs = @ \cup {x \in Range(Op.attrs) : <<x[1], x[2]>> \notin known}]
  /\ UNCHANGED <<kids, handle, open>>
RemoveOp == Is("remove") /\ kids' = Remove(kids, handle[Op.a]) /\ UNCHANGED <<data, handle, open>>
ReparentOp ==
  /\ Is("reparent") /\ kids' = ReparentChildren(kids, handle[Op.a], handle[Op.b])
  /\ UNCHANGED <<data, handle, open>>

\* XML
Current == open[Len(open)]
StartOp ==
  /\ Is("start")
  /\ data' = Append(data, Datum("E", Op.s, Range(Op.attrs), <<>>))
  /\ kids' = AppendChild(Append(kids, <<>>), Current, Fresh)
  /\ open' = Append(open, Fresh) /\ UNCHANGED handle
EndOp == Is("end") /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED <<data, kids, handle>>
CharsOp ==
  /\ Is("chars")
  /\ AddText(LastChild(kids, Current), LAMBDA k, n : AppendChild(k, Current, n))
  /\ UNCHANGED <<handle, open>>
XmlPiOp ==
  /\ Is("xpi")
  /\ data' = Append(data, Datum("P", Op.s, {}, <<>>))
  /\ kids' = AppendChild(Append(kids, <<>>), Current, Fresh)
  /\ UNCHANGED <<handle, open>>

-----------------------------------------------------------------------------
(* The document of the real code: a sequence of [l, k, s, attrs, txt], l being the numbers of the
   parent, the previous and next sibling and the first and last child *)
Dump == Doc.dump
RECURSIVE Following(_, _)
Following(n, fuel) == IF n = 0 \/ fuel = 0 THEN <<>> ELSE <<n>> \o Following(Dump[n].l[3], fuel - 1)
DumpKids(n) == Following(Dump[n].l[4], Len(Dump))

LinksOk ==
  LET dk == [n \in DOMAIN Dump |-> DumpKids(n)]
  IN /\ \A n \in DOMAIN Dump :
          /\ \A j \in DOMAIN dk[n] :
               LET l == Dump[dk[n][j]].l
               IN l[1] = n /\ l[2] = (IF j = 1 THEN 0 ELSE dk[n][j - 1]) /\ l[3] = (IF j = Len(dk[n]) THEN 0 ELSE dk[n][j + 1])
          /\ Dump[n].l[5] = (IF dk[n] = <<>> THEN 0 ELSE dk[n][Len(dk[n])])
          /\ Dump[n].l[1] = 0 => Dump[n].l[2] = 0 /\ Dump[n].l[3] = 0
          /\ Dump[n].l[1] # 0 => n \in Range(dk[Dump[n].l[1]])
     /\ Dump[1].l[1] = 0

\* A text without characters (an empty CDATA section) may be there or not
RECURSIVE SameTree(_, _)
SameTree(a, d) ==
  /\ data[a].k = Dump[d].k /\ data[a].s = Dump[d].s /\ data[a].txt = Dump[d].txt
  /\ data[a].attrs = Range(Dump[d].attrs) /\ Cardinality(data[a].attrs) = Len(Dump[d].attrs)
  /\ LET ak == SelectSeq(kids[a], LAMBDA n : ~(data[n].k = "T" /\ data[n].txt = <<>>))
         dk == SelectSeq(DumpKids(d), LAMBDA n : ~(Dump[n].k = "T" /\ Dump[n].txt = <<>>))
     IN Len(ak) = Len(dk) /\ \A j \in DOMAIN dk : SameTree(ak[j], dk[j])

-----------------------------------------------------------------------------
(* What is painted: x and right edge in px *)
Colors == Doc.colors   \* of each tag
HasAttr(n, name, v) == \E x \in data[n].attrs : x[1] = "" /\ x[2] = name /\ x[3] = v
Margin(n, name) == IF HasAttr(n, name, "1") THEN 1 ELSE IF HasAttr(n, name, "2") THEN 2 ELSE 0
Glyph(c) == IF c < Len(Font.g) THEN Font.g[c + 1] ELSE 0
Spaces == {9, 10, 12, 13, 32}
Glyphs(txt) ==
  LET g == [j \in 1..Len(SelectSeq(txt, LAMBDA c : c \notin Spaces)) |-> Glyph(SelectSeq(txt, LAMBDA c : c \notin Spaces)[j])]
  IN SelectSeq(g, LAMBDA x : x # Font.g[33])

\* By the style sheet of these documents, and by the one important declaration of the user agent
Hidden(n) ==
  \/ data[n].s[2] = "style"
  \/ data[n].s = <<"http://www.w3.org/1999/xhtml", "input">> /\ <<"", "type", "hidden">> \in data[n].attrs

RECURSIVE Painted(_, _, _)
\* Texts with nothing visible between them are one
PaintedKids(n, x, r) ==
  LET Merge(s, e) ==
        IF s # <<>> /\ e # <<>> /\ s[Len(s)].k = "text" /\ s[Len(s)].c = n /\ e[1].k = "text"
        THEN [s EXCEPT ![Len(s)].g = @ \o e[1].g]
        ELSE s \o e
      RECURSIVE all(_, _)
      all(done, s) == IF s = <<>> THEN done ELSE all(Merge(done, Painted(Head(s), x, r)), Tail(s))
  IN all(<<>>, kids[n])
Painted(n, x, r) ==
  IF data[n].k = "T"
  THEN LET g == Glyphs(data[n].txt) IN IF g = <<>> THEN <<>> ELSE <<[k |-> "text", c |-> Parent(kids, n), x |-> 0, r |-> 0, g |-> g]>>
  ELSE IF data[n].k # "E" \/ Hidden(n) THEN <<>>
  ELSE LET x1 == x + Margin(n, "a") r1 == r - Margin(n, "b")
       IN <<[k |-> "rect", c |-> IF data[n].s[2] \in DOMAIN Colors THEN Colors[data[n].s[2]] ELSE Colors["*"],
             x |-> x1, r |-> r1, g |-> <<>>]>> \o PaintedKids(n, x1 + 1, r1)

Unit == 10240
SameItem(e, o) ==
  /\ e.k = o.k /\ e.g = o.g
  /\ e.k = "rect" => e.c = o.c /\ e.x * Unit - o.x \in -300..300 /\ e.r * Unit - (o.x + o.w) \in -300..300
SamePaint(e) == Len(e) = Len(Doc.items) /\ \A j \in DOMAIN e : SameItem(e[j], Doc.items[j])

-----------------------------------------------------------------------------
(* What the document says of itself (C30): its links and its style sheets, in the order of the tree *)
RECURSIVE Preorder(_)
Preorder(n) ==
  LET RECURSIVE all(_)
      all(s) == IF s = <<>> THEN <<>> ELSE Preorder(Head(s)) \o all(Tail(s))
  IN <<n>> \o all(kids[n])
Html == "http://www.w3.org/1999/xhtml"
Elements(name) == SelectSeq(Preorder(1), LAMBDA n : data[n].k = "E" /\ data[n].s = <<Html, name>>)
Has(n, name) == \E x \in data[n].attrs : x[1] = "" /\ x[2] = name
Attr(n, name) == (CHOOSE x \in data[n].attrs : x[1] = "" /\ x[2] = name)[3]

Links ==
  LET l == SelectSeq(Elements("link"), LAMBDA n : Has(n, "rel") /\ Has(n, "href"))
  IN [j \in DOMAIN l |-> <<Attr(l[j], "rel"), Attr(l[j], "href")>>]

\* Types is what the generator uses: those that are "text/css" whatever their case, and the empty one
IsSheet(n) == Has(n, "type") => Attr(n, "type") \in Range(Doc.types)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
SheetText(n) == LET c == SelectSeq(kids[n], LAMBDA m : data[m].k = "T") IN Concat([j \in DOMAIN c |-> data[c[j]].txt])
\* Doc.sheets: what the texts that are meant to have an effect do, [txt |-> .., v |-> ..]: a value of one property.
\* The last style sheet with an effect decides.
Effects(txt) == {j \in DOMAIN Doc.sheets : Doc.sheets[j].txt = txt}
Effect ==
  LET e == SelectSeq(Elements("style"), LAMBDA n : IsSheet(n) /\ Effects(SheetText(n)) # {})
  IN IF e = <<>> THEN 0 ELSE Doc.sheets[CHOOSE j \in Effects(SheetText(e[Len(e)])) : TRUE].v

Judge ==
  /\ verdict = "" /\ i > Len(Doc.ops)
  /\ UNCHANGED <<t, i, data, kids, handle, open>>
  /\ verdict' =
       IF Doc.error # "" THEN Doc.error
       ELSE IF Dump # <<>> /\ ~LinksOk THEN "the links of the nodes contradict each other"
       ELSE IF Dump # <<>> /\ ~SameTree(1, 1) THEN "the document is not the tree of the operations"
       ELSE IF Doc.query /\ Links # Doc.links THEN "the links are not those of the tree"
       ELSE IF Doc.query /\ Effect # Doc.effect THEN "the style sheets are not those of the tree"
       ELSE IF Doc.paint /\ ~SamePaint(PaintedKids(1, 0, 600)) THEN "what is painted is not the tree of the operations"
       ELSE "conforms"
Done == verdict # "" /\ UNCHANGED vars

Next ==
  \/ CreateElement \/ CreateComment \/ CreatePi \/ AppendOp \/ BeforeOp \/ BasedOp \/ DoctypeOp
  \/ AttrsOp \/ RemoveOp \/ ReparentOp \/ StartOp \/ EndOp \/ CharsOp \/ XmlPiOp
  \/ Judge \/ Done
Spec == Init /\ [][Next]_vars

Conforms == verdict \in {"", "conforms"}
IsForest == i > Len(Doc.ops) => Forest(kids)
=============================================================================
