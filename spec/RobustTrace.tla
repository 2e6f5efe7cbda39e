---------------------------- MODULE RobustTrace ----------------------------
(***************************************************************************)
(* What became of inputs: [form, answer, pages, w, h, open, ms]             *)
(*   form: "html" or "xml", or XML known to be well-formed ("sound") or    *)
(*   not to be ("unsound"); answer: "pdf", "refused", or what went wrong    *)
(*   open: what is left open in the page's content (saved states)           *)
(* Runs of many inputs are judged in one behaviour, one input at a time.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS TraceFile, Patience
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, stage, why
vars == <<t, stage, why>>
T == Traces[t]
Init == t \in DOMAIN Traces /\ stage = "input" /\ why = ""
Parse ==
    /\ stage = "input"
    /\ stage' = IF T.form \in {"xml", "unsound"} /\ T.answer = "refused" THEN "refused" ELSE "parsed"
    /\ why' = IF T.form = "unsound" /\ T.answer # "refused" THEN "not refused: " \o T.answer ELSE ""
    /\ UNCHANGED t
Render ==
    /\ stage = "parsed" /\ stage' = "written"
    /\ why' = IF T.answer # "pdf" THEN T.answer
              ELSE IF T.pages # 1 \/ T.w # 600 \/ T.h # 800 THEN "not one page of 600 by 800 px"
              ELSE IF T.ms > Patience THEN "too long" ELSE ""
    /\ UNCHANGED t
Over == stage \in {"refused", "written"} /\ UNCHANGED vars
Next == Parse \/ Render \/ Over
Spec == Init /\ [][Next]_vars
Conforms == why = ""
=============================================================================
