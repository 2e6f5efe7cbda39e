------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Renderings as seen from outside (C16): many renderers, each of which     *)
(* begins and ends the rendering of one document after the other, in any    *)
(* interleaving.  A document has one rendering: what the first renderer to  *)
(* finish it got is what everyone gets, ever after, in whichever process.    *)
(*                                                                         *)
(* With TraceFile = "" any history is generated (the renderings drawn from   *)
(* Outs) and the invariants checked; otherwise a recorded history must be    *)
(* one of the specification's behaviours.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS TraceFile, Who, Docs, Outs, Length

Traces == IF TraceFile = "" THEN <<>> ELSE ndJsonDeserialize(TraceFile)
VARIABLES t, i, open, answer, seen
vars == <<t, i, open, answer, seen>>

None == 0 - 1
Init ==
    /\ t \in (IF TraceFile = "" THEN {0} ELSE DOMAIN Traces) /\ i = 1
    /\ open = <<>> /\ answer = <<>> /\ seen = {}

Begin(who, doc) ==
    /\ who \notin DOMAIN open
    /\ open' = (who :> doc) @@ open
    /\ UNCHANGED <<answer, seen>>
\* A renderer may render the document it has parsed several times before it is done with it
Result(who, doc, out) ==
    /\ who \in DOMAIN open /\ open[who] = doc
    /\ (doc \in DOMAIN answer => answer[doc] = out)
    /\ answer' = (doc :> out) @@ answer
    /\ seen' = IF TraceFile = "" THEN seen \cup {<<doc, out>>} ELSE seen   \* for the invariant only
    /\ UNCHANGED open
End(who) ==
    /\ who \in DOMAIN open
    /\ open' = [w \in DOMAIN open \ {who} |-> open[w]]
    /\ UNCHANGED <<answer, seen>>

E == Traces[t].events[i]
Follow ==
    /\ i <= Len(Traces[t].events)
    /\ CASE E.ev = "begin" -> Begin(E.who, E.doc)
         [] E.ev = "out" -> Result(E.who, E.doc, E.out)
         [] E.ev = "end" -> End(E.who)
    /\ i' = i + 1 /\ UNCHANGED t
Over == i > Len(Traces[t].events) /\ UNCHANGED vars
Free ==
    /\ i <= Length /\ i' = i + 1 /\ UNCHANGED t
    /\ \E who \in Who : \/ End(who)
                        \/ \E doc \in Docs : Begin(who, doc) \/ \E out \in Outs : Result(who, doc, out)
Next == IF TraceFile = "" THEN Free \/ (i > Length /\ UNCHANGED vars) ELSE Follow \/ Over
Spec == Init /\ [][Next]_vars

OneAnswer == \A x, y \in seen : x[1] = y[1] => x[2] = y[2]
Kept == [][\A d \in DOMAIN answer : answer'[d] = answer[d]]_vars
=============================================================================
