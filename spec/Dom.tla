-------------------------------- MODULE Dom ---------------------------------
(***************************************************************************)
(* The tree of a document (C01, C02): what each tree-construction operation *)
(* of the HTML and XML parsers does to it.                                  *)
(*                                                                          *)
(* A tree is the sequence of children of each node: kids[n]. Node 1 is the  *)
(* document. The operations are those of the HTML standard ("insert a       *)
(* character", "insert an element at the adjusted insertion location",      *)
(* foster parenting, adoption agency) and of the DOM standard.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Position(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

\* 0 for a node that is not in a tree
Parent(kids, n) == IF \E p \in DOMAIN kids : n \in Range(kids[p])
                   THEN CHOOSE p \in DOMAIN kids : n \in Range(kids[p]) ELSE 0

Remove(kids, n) ==
  LET p == Parent(kids, n)
  IN IF p = 0 THEN kids ELSE [kids EXCEPT ![p] = SelectSeq(@, LAMBDA x : x # n)]

AppendChild(kids, p, n) == [Remove(kids, n) EXCEPT ![p] = Append(@, n)]

InsertBefore(kids, s, n) ==
  LET k == Remove(kids, n)
      p == Parent(k, s)
      i == Position(k[p], s)
  IN [k EXCEPT ![p] = SubSeq(@, 1, i - 1) \o <<n>> \o SubSeq(@, i, Len(@))]

ReparentChildren(kids, a, b) ==
  IF a = b THEN kids ELSE [kids EXCEPT ![a] = <<>>, ![b] = @ \o kids[a]]

LastChild(kids, p) == IF kids[p] = <<>> THEN 0 ELSE kids[p][Len(kids[p])]
PreviousSibling(kids, s) ==
  LET p == Parent(kids, s)
      i == Position(kids[p], s)
  IN IF p = 0 \/ i = 1 THEN 0 ELSE kids[p][i - 1]

-----------------------------------------------------------------------------
RECURSIVE AncestorOrSelf(_, _, _, _)
\* a is n or an ancestor of n; the fuel f bounds the walk should there be a cycle
AncestorOrSelf(kids, a, n, f) ==
  \/ a = n
  \/ f > 0 /\ Parent(kids, n) # 0 /\ AncestorOrSelf(kids, a, Parent(kids, n), f - 1)

RECURSIVE ReachesTop(_, _, _)
ReachesTop(kids, n, f) == Parent(kids, n) = 0 \/ (f > 0 /\ ReachesTop(kids, Parent(kids, n), f - 1))

\* No node is in two places or below itself
Forest(kids) ==
  /\ \A p \in DOMAIN kids : Cardinality(Range(kids[p])) = Len(kids[p])
  /\ \A p, q \in DOMAIN kids : p # q => Range(kids[p]) \cap Range(kids[q]) = {}
  /\ \A n \in DOMAIN kids : ReachesTop(kids, n, Len(kids))
=============================================================================
