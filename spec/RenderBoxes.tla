----------------------------- MODULE RenderBoxes ----------------------------
(***************************************************************************)
(* Box generation (C08, C09, C10): which boxes the children of a block      *)
(* container generate.                                                      *)
(*                                                                          *)
(* A block container is either ["ifc", toks] or ["blocks", list], with      *)
(* list items ["block" | "anon" | "abs" | "float", e, toks].                *)
(* Inline content is a flat sequence of tokens                              *)
(*   text  e: element whose style it has, s: characters                     *)
(*   open  e, edge: whether its left edge is applied here                   *)
(*   close e, edge: whether its right edge is applied here                  *)
(*   abs e, float e                                                         *)
(***************************************************************************)
EXTENDS RenderCss

Display(e) == style[e]["display"].k
Position(e) == style[e]["position"].k
Float(e) == style[e]["float"].k # "none"

TokenOf(k, e, edge, s) == [k |-> k, e |-> e, edge |-> edge, s |-> s]
Item(k, e, toks) == [k |-> k, e |-> e, toks |-> toks]

RECURSIVE SkipWs(_)
SkipWs(s) == IF s # <<>> /\ IsWs(Head(s)) THEN SkipWs(Tail(s)) ELSE s
RECURSIVE Collapse(_)
Collapse(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF IsWs(Head(s)) THEN <<32>> \o Collapse(SkipWs(s))
  ELSE <<Head(s)>> \o Collapse(Tail(s))

\* White space at the start of a text is kept only after a text that does not end with a space
LastTexts(toks) == {i \in DOMAIN toks : toks[i].k = "text"}
KeepsSpace(toks) ==
  /\ LastTexts(toks) # {}
  /\ Last(toks[MaxOf(LastTexts(toks))].s) # 32

AddText(toks, e, txt) ==
  LET lead == txt # <<>> /\ IsWs(Head(txt))
      kept == lead /\ KeepsSpace(toks)
      rest == Collapse(SkipWs(txt))
      new == (IF kept THEN <<32>> ELSE <<>>) \o (IF lead THEN rest ELSE Collapse(txt))
  IN IF new = <<>> THEN toks
     ELSE IF toks # <<>> /\ Last(toks).k = "text" /\ Last(toks).e = e
     THEN Append(Front(toks), TokenOf("text", e, FALSE, Last(toks).s \o new))
     ELSE Append(toks, TokenOf("text", e, FALSE, new))

\* Builder state: out (block-level boxes so far), toks (ongoing inline content), open (inline boxes)
RECURSIVE Children(_, _, _)
RECURSIVE Generate(_, _)
Children(st, e, i) ==
  IF i > Len(Nodes[e].ch) THEN st
  ELSE LET n == Nodes[e].ch[i]
       IN Children(CASE Nodes[n].k = "c" -> st
                     [] Nodes[n].k = "t" -> [st EXCEPT !.toks = AddText(@, e, Nodes[n].txt)]
                     [] Nodes[n].k = "e" -> Generate(st, n),
                   e, i + 1)
Generate(st, n) ==
  LET outOfFlow(k) == IF st.toks = <<>> THEN [st EXCEPT !.out = Append(@, Item(k, n, <<>>))]
                      ELSE [st EXCEPT !.toks = Append(@, TokenOf(k, n, FALSE, <<>>))]
  IN CASE Display(n) = "none" -> st
       [] Display(n) = "contents" -> Children(st, n, 1)
       [] Display(n) \in {"block", "flow-root"} /\ Position(n) = "absolute" -> outOfFlow("abs")
       [] Display(n) \in {"block", "flow-root"} /\ Position(n) # "absolute" /\ Float(n) -> outOfFlow("float")
       [] Display(n) \in {"block", "flow-root"} /\ Position(n) # "absolute" /\ ~Float(n) ->
            LET inner == Reverse(st.open)
                closed == st.toks \o [i \in DOMAIN inner |-> TokenOf("close", inner[i], FALSE, <<>>)]
            IN [out |-> st.out \o (IF closed = <<>> THEN <<>> ELSE <<Item("anon", 0, closed)>>)
                          \o <<Item("block", n, <<>>)>>,
                toks |-> [i \in DOMAIN st.open |-> TokenOf("open", st.open[i], FALSE, <<>>)],
                open |-> st.open]
       [] Display(n) = "inline" ->
            LET inside == Children([st EXCEPT !.toks = Append(@, TokenOf("open", n, TRUE, <<>>)),
                                              !.open = Append(@, n)], n, 1)
            IN [inside EXCEPT !.toks = Append(@, TokenOf("close", n, TRUE, <<>>)), !.open = Front(@)]

ContainerOf(e) ==
  LET st == Children([out |-> <<>>, toks |-> <<>>, open |-> <<>>], e, 1)
  IN IF st.out = <<>> /\ st.toks # <<>> THEN [k |-> "ifc", toks |-> st.toks, list |-> <<>>]
     ELSE [k |-> "blocks", toks |-> <<>>,
           list |-> st.out \o (IF st.toks = <<>> THEN <<>> ELSE <<Item("anon", 0, st.toks)>>)]

\* Elements in the contents of a container that are containers themselves
Nested(c) ==
  LET ofToks(toks) == LET s == SelectSeq(toks, LAMBDA k : k.k = "abs") IN [i \in DOMAIN s |-> s[i].e]
      RECURSIVE all(_)
      all(items) == IF items = <<>> THEN <<>>
                    ELSE (IF Head(items).k \in {"block", "abs"} THEN <<Head(items).e>> ELSE ofToks(Head(items).toks))
                         \o all(Tail(items))
  IN IF c.k = "ifc" THEN ofToks(c.toks) ELSE all(c.list)

RootRenders == Display(Root) # "none" /\ (~Float(Root) \/ Position(Root) = "absolute")

StartBoxes ==
  /\ phase = "style" /\ Len(style) = Len(Nodes)
  /\ phase' = "boxes"
  /\ boxes' = [e \in {} |-> <<>>]
  /\ queue' = IF RootRenders THEN <<Root>> ELSE <<>>
  /\ UNCHANGED <<t, style, frags, list, verdict>>

\* Boxes of the next block container
BuildContainer ==
  /\ phase = "boxes" /\ queue # <<>>
  /\ LET e == Head(queue) c == ContainerOf(e)
     IN /\ boxes' = (e :> c) @@ boxes
        /\ queue' = Tail(queue) \o Nested(c)
  /\ UNCHANGED <<t, phase, style, frags, list, verdict>>

-----------------------------------------------------------------------------
(* Properties of every box tree *)

IfcsOf(c) == IF c.k = "ifc" THEN {c.toks} ELSE {c.list[i].toks : i \in {i \in DOMAIN c.list : c.list[i].k = "anon"}}
AllIfcs == UNION {IfcsOf(boxes[e]) : e \in DOMAIN boxes}

\* Inline boxes nest; no inline formatting context is empty, and no block-level box is inside one
RECURSIVE NestsFrom(_, _)
NestsFrom(toks, open) ==
  IF toks = <<>> THEN open = <<>>
  ELSE CASE Head(toks).k = "open" -> NestsFrom(Tail(toks), Append(open, Head(toks).e))
         [] Head(toks).k = "close" -> open # <<>> /\ Last(open) = Head(toks).e /\ NestsFrom(Tail(toks), Front(open))
         [] OTHER -> NestsFrom(Tail(toks), open)
WellNested == \A toks \in AllIfcs : toks # <<>> /\ NestsFrom(toks, <<>>)

\* Each inline box has its left edge on exactly its first part, its right edge on its last
EdgesOnce ==
  \A e \in DOMAIN boxes :
    LET c == boxes[e]
        RECURSIVE flat(_)
        flat(items) == IF items = <<>> THEN <<>> ELSE Head(items).toks \o flat(Tail(items))
        toks == IF c.k = "ifc" THEN c.toks ELSE flat(c.list)
        at(k, x) == {i \in DOMAIN toks : toks[i].k = k /\ toks[i].e = x}
    IN \A x \in {toks[i].e : i \in {i \in DOMAIN toks : toks[i].k = "open"}} :
         /\ Cardinality(at("open", x)) = Cardinality(at("close", x))
         /\ \A i \in at("open", x) : toks[i].edge <=> i = MinOf(at("open", x))
         /\ \A i \in at("close", x) : toks[i].edge <=> i = MaxOf(at("close", x))

\* No run of inline content starts with a space or has two spaces in a row
RECURSIVE TextOf(_)
TextOf(toks) == IF toks = <<>> THEN <<>>
                ELSE (IF Head(toks).k = "text" THEN Head(toks).s ELSE <<>>) \o TextOf(Tail(toks))
Collapsed ==
  \A toks \in AllIfcs :
    LET s == TextOf(toks)
    IN /\ s = <<>> \/ s[1] # 32
       /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = 32 /\ s[i + 1] = 32)
       /\ \A i \in DOMAIN s : s[i] = 32 \/ ~IsWs(s[i])
BoxTreeOk == phase = "layout" => WellNested /\ EdgesOnce /\ Collapsed
=============================================================================
