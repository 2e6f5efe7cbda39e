------------------------------- MODULE DomLinks ------------------------------
(***************************************************************************)
(* The design of victor's documents: nodes linked to their parent, siblings *)
(* and first and last child, updated by detach, append, insert-before and a *)
(* loop for reparenting. TLC explores every history of operations over a    *)
(* few nodes, and checks that the links always represent the tree of Dom.   *)
(***************************************************************************)
EXTENDS Dom

CONSTANT N        \* nodes, the document included

Nodes == 1..N
VARIABLES kids,   \* the tree, as specified
          lk,     \* the links, as stored
          pc      \* a reparenting in progress: <<a, b, next child>>, or <<>>
vars == <<kids, lk, pc>>

NoLinks == [par |-> 0, prv |-> 0, nxt |-> 0, fst |-> 0, lst |-> 0]

Init ==
  /\ kids = [n \in Nodes |-> <<>>]
  /\ lk = [n \in Nodes |-> NoLinks]
  /\ pc = <<>>

LDetach(l, n) ==
  LET p == l[n].par v == l[n].prv x == l[n].nxt
      l1 == [l EXCEPT ![n].par = 0, ![n].prv = 0, ![n].nxt = 0]
      l2 == IF x # 0 THEN [l1 EXCEPT ![x].prv = v] ELSE IF p # 0 THEN [l1 EXCEPT ![p].lst = v] ELSE l1
  IN IF v # 0 THEN [l2 EXCEPT ![v].nxt = x] ELSE IF p # 0 THEN [l2 EXCEPT ![p].fst = x] ELSE l2

LAppend(l, p, n) ==
  LET d == LDetach(l, n)
      last == d[p].lst
      d1 == [d EXCEPT ![n].par = p, ![p].lst = n]
  IN IF last # 0 THEN [d1 EXCEPT ![n].prv = last, ![last].nxt = n] ELSE [d1 EXCEPT ![p].fst = n]

LInsertBefore(l, s, n) ==
  LET d == LDetach(l, n)
      v == d[s].prv
      p == d[s].par
      d1 == [d EXCEPT ![n].par = p, ![n].nxt = s, ![s].prv = n]
  IN IF v # 0 THEN [d1 EXCEPT ![n].prv = v, ![v].nxt = n] ELSE [d1 EXCEPT ![p].fst = n]

Idle == pc = <<>>
CanMove(n, p) == n # 1 /\ ~AncestorOrSelf(kids, n, p, N)

AppendOp(p, n) ==
  /\ Idle /\ CanMove(n, p)
  /\ kids' = AppendChild(kids, p, n) /\ lk' = LAppend(lk, p, n) /\ UNCHANGED pc
BeforeOp(s, n) ==
  /\ Idle /\ s # n /\ Parent(kids, s) # 0 /\ CanMove(n, Parent(kids, s))
  /\ kids' = InsertBefore(kids, s, n) /\ lk' = LInsertBefore(lk, s, n) /\ UNCHANGED pc
RemoveOp(n) ==
  /\ Idle /\ Parent(kids, n) # 0
  /\ kids' = Remove(kids, n) /\ lk' = LDetach(lk, n) /\ UNCHANGED pc
\* One child at a time, as the code does
ReparentStart(a, b) ==
  /\ Idle /\ a # b /\ kids[a] # <<>> /\ ~AncestorOrSelf(kids, a, b, N)
  /\ pc' = <<a, b, lk[a].fst>> /\ UNCHANGED <<kids, lk>>
ReparentStep ==
  /\ pc # <<>>
  /\ LET b == pc[2] c == pc[3]
     IN /\ kids' = AppendChild(kids, b, c)
        /\ lk' = LAppend(lk, b, c)
        /\ pc' = IF lk[c].nxt = 0 THEN <<>> ELSE <<pc[1], b, lk[c].nxt>>

Next ==
  \/ \E p, n \in Nodes : AppendOp(p, n)
  \/ \E s, n \in Nodes : BeforeOp(s, n)
  \/ \E n \in Nodes : RemoveOp(n)
  \/ \E a, b \in Nodes : ReparentStart(a, b)
  \/ ReparentStep
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
IsForest == Forest(kids)

Represents ==
  \A n \in Nodes :
    LET p == Parent(kids, n)
        i == Position(kids[p], n)
        c == kids[n]
    IN lk[n] = [par |-> p,
                prv |-> IF p = 0 \/ i = 1 THEN 0 ELSE kids[p][i - 1],
                nxt |-> IF p = 0 \/ i = Len(kids[p]) THEN 0 ELSE kids[p][i + 1],
                fst |-> IF c = <<>> THEN 0 ELSE c[1],
                lst |-> IF c = <<>> THEN 0 ELSE c[Len(c)]]

\* At the end of the loop all children of a have become the last children of b, in order
ReparentWhole ==
  [][(pc # <<>> /\ pc' = <<>>) => kids'[pc[1]] = <<>>]_vars
\* In one step or many, the same
ReparentAgrees ==
  \A a, b \in Nodes :
    (Idle /\ a # b /\ ~AncestorOrSelf(kids, a, b, N)) =>
      LET RECURSIVE loop(_, _)
          loop(k, todo) == IF todo = <<>> THEN k ELSE loop(AppendChild(k, b, Head(todo)), Tail(todo))
      IN loop(kids, kids[a]) = ReparentChildren(kids, a, b)
=============================================================================
