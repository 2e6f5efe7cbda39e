------------------------------- MODULE PdfDoc -------------------------------
(***************************************************************************)
(* The painting API of victor::pdf (C18): what each call means, and how     *)
(* the implementation gets there.                                           *)
(*                                                                          *)
(* `doc` is the abstract meaning: the finished pages, each with its items;  *)
(* every item carries the colour and opacity in force when it was painted.  *)
(* `ops`, `gs`, `alphas` and `names` are the implementation's side: the     *)
(* operators emitted on the current page, the graphics state it remembers   *)
(* in order to skip redundant operators, and the table of named alpha       *)
(* states that all pages share.  Faithful says that a PDF reader that       *)
(* starts each page in the default graphics state and executes the          *)
(* operators sees exactly the abstract items.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NColors,     \* how many entries of the palette are used
          MaxOps,      \* bound on the number of calls
          MaxPages,
          Emit         \* TRUE: print every complete history, for replay in the real code

\* <<colour, alpha>>, alpha in 1/65535 and possibly out of range
Palette == << <<0, 65535>>, <<1, 65535>>, <<1, 32768>>, <<0, -100>>, <<2, 99999>>, <<2, 32768>> >>
Colors == {Palette[i] : i \in 1..NColors}

Black == 0
Opaque == 65535
Clamp(a) == IF a < 0 THEN 0 ELSE IF a > Opaque THEN Opaque ELSE a

VARIABLES doc,    \* finished pages: sequences of items [col, alpha]
          cur,    \* items of the page in progress
          open,   \* is there a page in progress?
          color, alpha,       \* latest set_color on it
          pages,  \* operators of the finished pages
          ops,    \* operators emitted on the page in progress
          gs,     \* remembered graphics state [col, alpha]
          alphas, \* alpha -> name of the graphics state resource, in order of creation
          hist    \* the calls so far
vars == <<doc, cur, open, color, alpha, pages, ops, gs, alphas, hist>>

Default == [col |-> Black, alpha |-> Opaque]

Init == /\ doc = <<>> /\ cur = <<>> /\ open = FALSE
        /\ color = Black /\ alpha = Opaque
        /\ pages = <<>> /\ ops = <<>> /\ gs = Default /\ alphas = <<>> /\ hist = <<>>

Busy == Len(hist) < MaxOps

\* A new page: the previous one is finished, and nothing of its state carries over.
AddPage ==
  /\ Busy /\ Len(doc) + (IF open THEN 1 ELSE 0) < MaxPages
  /\ doc' = IF open THEN Append(doc, cur) ELSE doc
  /\ pages' = IF open THEN Append(pages, ops) ELSE pages
  /\ open' = TRUE /\ cur' = <<>> /\ ops' = <<>> /\ gs' = Default
  /\ color' = Black /\ alpha' = Opaque
  /\ hist' = Append(hist, <<"page">>)
  /\ UNCHANGED alphas

Position(a) == IF \E i \in DOMAIN alphas : alphas[i] = a
               THEN CHOOSE i \in DOMAIN alphas : alphas[i] = a ELSE 0

SetColor(c, a0) ==
  LET a == Clamp(a0)
      newCol == gs.col # c
      newAlpha == gs.alpha # a
      known == Position(a)
      ops1 == IF newCol THEN Append(ops, <<"rg", c>>) ELSE ops
  IN /\ Busy /\ open
     /\ color' = c /\ alpha' = a
     /\ gs' = [col |-> c, alpha |-> a]
     /\ alphas' = IF newAlpha /\ known = 0 THEN Append(alphas, a) ELSE alphas
     /\ ops' = IF newAlpha
               THEN Append(ops1, <<"gs", IF known = 0 THEN Len(alphas) + 1 ELSE known>>)
               ELSE ops1
     /\ hist' = Append(hist, <<"color", c, a0>>)
     /\ UNCHANGED <<doc, cur, open, pages>>

Paint ==
  /\ Busy /\ open
  /\ cur' = Append(cur, [col |-> color, alpha |-> alpha])
  /\ ops' = Append(ops, <<"f">>)
  /\ hist' = Append(hist, <<"paint">>)
  /\ UNCHANGED <<doc, open, color, alpha, pages, gs, alphas>>

Next == AddPage \/ Paint \/ \E c \in Colors : SetColor(c[1], c[2])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A PDF reader
RECURSIVE Interpret(_, _, _)
Interpret(o, st, out) ==
  IF o = <<>> THEN out
  ELSE LET x == Head(o)
       IN IF x[1] = "rg" THEN Interpret(Tail(o), [st EXCEPT !.col = x[2]], out)
          ELSE IF x[1] = "gs" THEN Interpret(Tail(o), [st EXCEPT !.alpha = alphas[x[2]]], out)
          ELSE Interpret(Tail(o), st, Append(out, st))

Faithful ==
  /\ Interpret(ops, Default, <<>>) = cur
  /\ Len(pages) = Len(doc)
  /\ \A i \in DOMAIN pages : Interpret(pages[i], Default, <<>>) = doc[i]

AlphasDistinct == \A i, j \in DOMAIN alphas : alphas[i] = alphas[j] => i = j
RememberedState == open => gs = [col |-> color, alpha |-> alpha]

\* Every history that ends by painting is replayed in the real code.
Export == (Emit /\ hist # <<>> /\ hist[Len(hist)] = <<"paint">> /\ Len(hist) >= MaxOps - 1) => PrintT("@@" \o ToJson(hist))
=============================================================================
