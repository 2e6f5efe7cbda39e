---------------------------- MODULE PngStreamMC ----------------------------
(***************************************************************************)
(* Every library of a few requests with every stream of a few calls.  The   *)
(* bytes are numbered, so that one can see where they went.                 *)
(***************************************************************************)
EXTENDS PngStream, TLC, Json, SequencesExt
CONSTANTS MaxRequests, MaxSize, MaxCalls, Kinds, Emit

VARIABLES
    plan,     \* the requests of the library
    next,     \* which one comes
    to,       \* the bytes that have arrived at the other side, in order
    script    \* what the stream did at each call
vars == <<sVars, plan, next, to, script>>

Plans == UNION {[1..n -> 1..MaxSize] : n \in 0..MaxRequests}
Init == SInit /\ plan \in Plans /\ next = 1 /\ to = <<>> /\ script = <<>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Total == Sum(plan)

Did(what) == calls < MaxCalls /\ script' = Append(script, what)
Ask ==
    /\ next <= Len(plan) /\ Request(plan[next]) /\ next' = next + 1
    /\ UNCHANGED <<plan, to, script>>
Again == RequestAgain /\ UNCHANGED <<plan, next, to, script>>
Some == \E k \in 1..MaxSize :
    /\ Did(ToString(k)) /\ Move(k)
    /\ to' = to \o [j \in 1..k |-> moved + j]
    /\ UNCHANGED <<plan, next>>
Inter == Did("i") /\ Interrupted /\ UNCHANGED <<plan, next, to>>
Zero == Did("0") /\ GivesUp /\ UNCHANGED <<plan, next, to>>
Fail == \E kind \in Kinds : Did("e " \o kind) /\ Fails(kind) /\ UNCHANGED <<plan, next, to>>
Panic == Did("p") /\ Panics("") /\ UNCHANGED <<plan, next, to>>
Done ==
    /\ (kept # Nothing \/ next > Len(plan))
    /\ Return("ok") /\ UNCHANGED <<plan, next, to, script>>
Next == Ask \/ Again \/ Some \/ Inter \/ Zero \/ Fail \/ Panic \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Ask) /\ WF_vars(Done)
          /\ WF_vars(Some \/ Zero \/ Fail \/ Panic)

InOrder == to = [j \in 1..moved |-> j] /\ moved <= Total
\* The caller learns of the first thing that stopped the stream, and of nothing else
Stoppers == {j \in DOMAIN script : script[j] \notin {"i"} \cup {ToString(k) : k \in 1..MaxSize}}
FirstIsHandedBack ==
    state = "returned" =>
        IF Stoppers = {} THEN end.what = "ok" /\ moved = Total
        ELSE /\ end.what \in {"short", "error", "panic"}
             /\ end.at \in Stoppers /\ \A j \in Stoppers : end.at <= j
             /\ CASE end.what = "short" -> script[end.at] = "0"
                  [] end.what = "panic" -> script[end.at] = "p"
                  [] OTHER -> script[end.at] = "e " \o end.kind
\* and the stream is left alone from there on
LeftAlone == \A j \in Stoppers : j = Len(script)
Ends == <>(state = "returned" \/ calls = MaxCalls)

\* Scripts to be followed by real streams: those of the longest plans suffice
Export ==
    Emit /\ state = "returned" /\ script # <<>> /\ Stoppers # {}
        /\ plan = [j \in 1..MaxRequests |-> MaxSize]
        => PrintT("@@" \o ToJson(script))
=============================================================================
