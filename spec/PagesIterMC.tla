---------------------------- MODULE PagesIterMC ----------------------------
(***************************************************************************)
(* Every history of operations on documents of few pages.  With Emit, the   *)
(* histories are to be followed by the real iterator.                       *)
(***************************************************************************)
EXTENDS PagesIter, TLC, Json, FiniteSets
CONSTANTS MaxPages, MaxOps, Emit
VARIABLES
    ops,     \* the history
    given,   \* pages given so far, by one at a time
    passed   \* pages passed over by nth and nth_back
vars == <<pVars, ops, given, passed>>

Init == count \in 0..MaxPages /\ PInit /\ ops = <<>> /\ given = <<>> /\ passed = {}

Does(op) == Len(ops) < MaxOps /\ ops' = Append(ops, op)
Gives == given' = given \o answer'.pages
Took(lost) == passed' = passed \cup (lost \ {answer'.pages[j] : j \in DOMAIN answer'.pages})
Next ==
    \/ \E k \in 0..(MaxPages + 1) :
          \/ Does("n " \o ToString(k)) /\ Front(k) /\ Gives /\ Took(lo..(lo' - 1))
          \/ Does("m " \o ToString(k)) /\ Back(k) /\ Gives /\ Took(hi'..(hi - 1))
    \/ Does("f") /\ Front(0) /\ Gives /\ Took({})
    \/ Does("b") /\ Back(0) /\ Gives /\ Took({})
    \/ Does("l") /\ Length /\ UNCHANGED <<given, passed>>
    \/ Does("h") /\ Length /\ UNCHANGED <<given, passed>>
    \/ Does("c") /\ Count /\ UNCHANGED <<given, passed>>
    \/ Does("L") /\ Last /\ UNCHANGED <<given, passed>>
    \/ Does("r") /\ Reversed /\ Gives /\ Took({})
    \/ Does("a") /\ All /\ Gives /\ Took({})
    \/ \E k \in 1..MaxPages : Does("s " \o ToString(k)) /\ StepBy(k) /\ UNCHANGED <<given, passed>>
Spec == Init /\ [][Next]_vars

Given == {given[j] : j \in DOMAIN given}
Interval == lo <= hi /\ hi <= count
EachOnce == Cardinality(Given) = Len(given)
\* Every page is given, passed over or left, and only one of them
Accounted ==
    ~gone => /\ Given \cup passed \cup lo..(hi - 1) = 0..(count - 1)
             /\ Given \cap passed = {} /\ (Given \cup passed) \cap lo..(hi - 1) = {}
\* Reading to the end gives exactly all pages
Complete == gone /\ Len(ops) > 0 /\ ops[Len(ops)] \in {"a", "r"} => Given \cup passed = 0..(count - 1)
\* What comes from the front increases, and lies before what is left
Exhausted == [][lo = hi => hi' = lo' /\ answer'.pages = <<>>]_pVars
Export == Emit /\ (Len(ops) = MaxOps \/ gone) => PrintT("@@" \o ToString(count) \o " " \o ToJson(ops))
=============================================================================
