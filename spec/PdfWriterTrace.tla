--------------------------- MODULE PdfWriterTrace ---------------------------
(***************************************************************************)
(* Attempts to write a PDF, recorded from the real code (C21).  Events:     *)
(* a n / s n  the destination accepted n bytes (all / part of what it was   *)
(*            offered; runs of complete acceptances are merged)             *)
(* i          interrupted      e, z  error, nothing accepted any more       *)
(* result     what the call returned                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, accepted, failed, ended
vars == <<t, l, accepted, failed, ended>>

Init == t \in DOMAIN Traces /\ l = 1 /\ accepted = 0 /\ failed = FALSE /\ ended = FALSE
Tr == Traces[t]
Ev == Tr.ev[l]
IsEvent(e) == l <= Len(Tr.ev) /\ Ev.e = e /\ l' = l + 1 /\ t' = t

Accept == /\ (IsEvent("a") \/ IsEvent("s"))
          /\ accepted + Ev.n <= Tr.len
          /\ accepted' = accepted + Ev.n /\ UNCHANGED <<failed, ended>>
Interrupt == IsEvent("i") /\ UNCHANGED <<accepted, failed, ended>>
Fail == (IsEvent("e") \/ IsEvent("z")) /\ failed' = TRUE /\ UNCHANGED <<accepted, ended>>

\* good: the bytes accepted are the file's bytes from its start, in order
ResultOk == IsEvent("ok") /\ ~failed /\ accepted = Tr.len /\ Ev.good
            /\ ended' = TRUE /\ UNCHANGED <<accepted, failed>>
ResultErr == IsEvent("err") /\ failed
            /\ ended' = TRUE /\ UNCHANGED <<accepted, failed>>
\* The document is unchanged by all the attempts
After == IsEvent("after") /\ Ev.same /\ UNCHANGED <<accepted, failed, ended>>

Done == ended /\ l = Len(Tr.ev) + 1 /\ UNCHANGED vars
Next == Accept \/ Interrupt \/ Fail \/ ResultOk \/ ResultErr \/ After \/ Done
Spec == Init /\ [][Next]_vars
Bounded == accepted <= Tr.len
=============================================================================
