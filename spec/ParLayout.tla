------------------------------ MODULE ParLayout ------------------------------
(***************************************************************************)
(* Layout of N sibling boxes in parallel (C16): the work is split into      *)
(* halves as the scheduler likes; each part lays out its boxes in order     *)
(* and collects what they contribute (absolutely positioned descendants)    *)
(* in an accumulator: the leftmost part in the caller's, every other in a   *)
(* new one; finished neighbours are joined left to right.  Whatever the     *)
(* schedule, the outcome is the one of doing it in order.                   *)
(*                                                                         *)
(* Sequential = FALSE: any interleaving of the parts, boxes being laid out  *)
(* one step at a time by up to W workers.                                   *)
(* Sequential = TRUE: one worker; only the schedules that can be replayed   *)
(* in the real code through a rayon whose joins are under control.  `dec`   *)
(* is the schedule: for each split, in order of the splits, which half ran  *)
(* first and which ones were told that they were stolen.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* boxes
          T,          \* threads of the pool: decides how far work is split
          W,          \* workers
          Sequential, Emit

VARIABLES node,   \* the parts, by the path of halves that leads to them
          dec, log, stack
vars == <<node, dec, log, stack>>

Max(a, b) == IF a > b THEN a ELSE b

\* What box k contributes: nothing, one or two things
Contribution(k) == IF k % 3 = 0 THEN <<>> ELSE IF k % 3 = 1 THEN <<k>> ELSE <<k, -k>>
Before == <<0>>   \* what the caller's accumulator holds already
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

\* splits: how often this part may still be split without having been stolen
Part(lo, hi, splits, acc) == [lo |-> lo, hi |-> hi, splits |-> splits, acc |-> acc, out |-> <<>>, st |-> "ready", id |-> 0]
Root == <<>>
Init ==
    /\ node = (Root :> Part(1, N, T, Before))
    /\ dec = <<>> /\ log = <<>> /\ stack = <<Root>>

Paths == DOMAIN node
Running == {p \in Paths : node[p].st = "run"}
\* A part may start when it is ready; with one worker, only the part on top of the stack
Startable(p) == node[p].st = "ready" /\ (Sequential => Running = {} /\ stack # <<>> /\ stack[1] = p)
                /\ (~Sequential => Cardinality(Running) < W)
Rest == IF Sequential THEN Tail(stack) ELSE stack

Splits(p, stolen) ==
    /\ node[p].hi > node[p].lo
    /\ stolen \/ node[p].splits > 0
SplitsLeft(p, stolen) == IF stolen THEN Max(T, node[p].splits \div 2) ELSE node[p].splits \div 2

\* Note on the schedule of each half: written down by its parent
Halves(p, stolen) ==
    LET n == node[p]
        mid == n.lo + (n.hi - n.lo + 1) \div 2 - 1
        s == SplitsLeft(p, stolen)
    IN (Append(p, 0) :> Part(n.lo, mid, s, n.acc)) @@ (Append(p, 1) :> Part(mid + 1, n.hi, s, <<>>))

\* Whether part p knows that it was stolen is drawn when its parent splits
Stolen(p) == IF p = Root THEN FALSE ELSE
    LET d == dec[node[SubSeq(p, 1, Len(p) - 1)].id] IN IF p[Len(p)] = 0 THEN d.a ELSE d.b

Start(p) ==
    /\ Startable(p)
    /\ IF Splits(p, Stolen(p))
       THEN \E first \in {0, 1}, a, b \in BOOLEAN :
            /\ (a => p = Root)   \* only the outermost join can come from outside the pool
            /\ (~Sequential => first = 0)
            /\ dec' = Append(dec, [first |-> first, a |-> a, b |-> b])
            /\ log' = log \o <<"(" \o ToString(Len(dec) + 1)>>
            /\ node' = [node EXCEPT ![p].st = "split", ![p].id = Len(dec) + 1] @@ Halves(p, Stolen(p))
            /\ stack' = IF Sequential THEN <<Append(p, first), Append(p, 1 - first)>> \o Rest ELSE stack
       ELSE /\ node' = [node EXCEPT ![p].st = "run"]
            /\ stack' = Rest /\ UNCHANGED <<dec, log>>

\* Lay out the next box of this part
Step(p) ==
    LET n == node[p] k == n.lo + Len(n.out) IN
    /\ n.st = "run"
    /\ node' = [node EXCEPT ![p].acc = @ \o Contribution(k), ![p].out = Append(@, k),
                            ![p].st = IF k = n.hi THEN "done" ELSE "run"]
    /\ UNCHANGED <<dec, log, stack>>

Join(p) ==
    LET l == node[Append(p, 0)] r == node[Append(p, 1)] IN
    /\ node[p].st = "split" /\ l.st = "done" /\ r.st = "done"
    /\ node' = [node EXCEPT ![p].acc = l.acc \o r.acc, ![p].out = l.out \o r.out, ![p].st = "done"]
    /\ log' = log \o <<")" \o ToString(node[p].id)>>
    /\ UNCHANGED <<dec, stack>>
CanJoin(p) == node[p].st = "split" /\ node[Append(p, 0)].st = "done" /\ node[Append(p, 1)].st = "done"

Finished == node[Root].st = "done"
Next ==
    \/ \E p \in Paths : Join(p)
    \/ /\ Sequential => \A p \in Paths : ~CanJoin(p)   \* a join returns at once
       /\ \E p \in Paths : Start(p) \/ Step(p)
    \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
InOrder == Before \o Concat([k \in 1..N |-> Contribution(k)])
Deterministic == Finished => node[Root].acc = InOrder /\ node[Root].out = [k \in 1..N |-> k]
\* Every box is the business of exactly one part, and is laid out once
Leaves == {p \in Paths : node[p].st # "split" /\ ~(node[p].st = "done" /\ Append(p, 0) \in Paths)}
EachOnce == \A k \in 1..N : Cardinality({p \in Leaves : node[p].lo <= k /\ k <= node[p].hi}) = 1
Terminates == <>Finished
\* Two schedules that differ in what was told to whom only, or not at all, are both kept
Code(d) == d.first + (IF d.b THEN 2 ELSE 0) + (IF d.a THEN 4 ELSE 0)
Export == (Emit /\ Finished) => PrintT("@@" \o ToJson([dec |-> [k \in DOMAIN dec |-> Code(dec[k])], log |-> log]))
=============================================================================
