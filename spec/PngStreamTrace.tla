-------------------------- MODULE PngStreamTrace --------------------------
(***************************************************************************)
(* Images read and written by the real code through streams that log their  *)
(* calls.  Every log must be a behaviour of PngStream, the bytes must have  *)
(* gone where they belong, and the result must be what the specification    *)
(* hands back; on success the pixels are those of the image.                *)
(*                                                                          *)
(* Images: [w, h, format, px, bytes]; px row by row, each <<r, g, b, a>> as *)
(* a PNG file has them (read), or as cairo has them (write).                *)
(* Traces: [mode, image, n, valid, steps, result, kind, at, taken, got]     *)
(*   read: n bytes of image.bytes are there (valid: all, unchanged)         *)
(*   write: image.bytes are what an obliging stream was given, px2 what an  *)
(*   independent decoder makes of them                                      *)
(*   steps[k] = [asked, did, n, kind]; got: the pixels, <<a, r, g, b>>      *)
(***************************************************************************)
EXTENDS PngStream, TLC, Json, Integers
CONSTANTS ImageFile, TraceFile
Images == ndJsonDeserialize(ImageFile)
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, why
vars == <<sVars, t, l, why>>
T == Traces[t]
I == Images[T.image]
Init == SInit /\ t \in DOMAIN Traces /\ l = 1 /\ why = ""

\* What cairo keeps of a colour with alpha, and gives back
Premultiplied(c, a) == LET x == c * a + 128 IN (x + x \div 256) \div 256
Unmultiplied(c, a) == IF a = 0 THEN 0 ELSE (c * 255 + a \div 2) \div a

InCairo(p) == <<p[4], Premultiplied(p[1], p[4]), Premultiplied(p[2], p[4]), Premultiplied(p[3], p[4])>>
InFile(p) ==
    IF I.format = "rgb24" THEN <<p[2], p[3], p[4], 255>>
    ELSE <<Unmultiplied(p[2], p[1]), Unmultiplied(p[3], p[1]), Unmultiplied(p[4], p[1]), p[1]>>

S == T.steps[l]
Step ==
    /\ l <= Len(T.steps) /\ why = ""
    /\ l' = l + 1 /\ UNCHANGED <<t, why>>
    /\ S.asked = asked /\ state = "callback"
    /\ \/ S.did = "moved" /\ S.n > 0 /\ Move(S.n)
       \/ S.did = "moved" /\ S.n = 0 /\ GivesUp
       \/ S.did = "interrupted" /\ Interrupted
       \/ S.did = "error" /\ Fails(S.kind)
       \/ S.did = "panic" /\ Panics(S.kind)
\* The library's own steps are not in the log: it asks for what the next call is asked for
Ask ==
    /\ l <= Len(T.steps) /\ state = "library" /\ why = ""
    /\ S.asked > 0 /\ Request(S.asked)
    /\ UNCHANGED <<t, l, why>>

Whole == T.valid /\ T.n = Len(I.bytes)
Ending ==
    /\ l > Len(T.steps) /\ state = "library"
    /\ Return(IF T.mode = "read" /\ T.result = "invalid" /\ ~Whole THEN "invalid" ELSE "ok")
Judged ==
    IF T.result # end'.what THEN "the stream ended with " \o end'.what \o ", the caller was told " \o T.result
    ELSE IF T.result \in {"error", "panic"} /\ (T.at # end'.at \/ T.kind # end'.kind) THEN "another failure than the first was handed back"
    ELSE IF T.mode = "read" /\ T.result = "short" /\ Whole /\ moved = Len(I.bytes) THEN "more was read than a whole image has"
    ELSE IF T.mode = "write" /\ T.taken # SubSeq(I.bytes, 1, moved) THEN "the bytes written are not a beginning of the file"
    ELSE IF T.result # "ok" \/ (T.mode = "read" /\ ~T.valid) THEN ""
    ELSE IF moved # Len(I.bytes) THEN "not all or more than the bytes of the image were moved"
    ELSE IF T.mode = "read" /\ T.got # [k \in DOMAIN I.px |-> InCairo(I.px[k])] THEN "other pixels were read"
    ELSE IF T.mode = "read" /\ (T.w # I.w \/ T.h # I.h) THEN "another size was read"
    ELSE IF T.mode = "write" /\ I.px2 # [k \in DOMAIN I.px |-> InFile(I.px[k])] THEN "other pixels were written"
    ELSE ""
End ==
    /\ why = "" /\ Ending
    /\ why' = IF Judged = "" THEN "fine" ELSE Judged
    /\ UNCHANGED <<t, l>>
\* A log that is no behaviour
Stuck ==
    /\ why = "" /\ state # "returned" /\ ~ENABLED Step /\ ~ENABLED Ask /\ ~ENABLED Ending
    /\ why' = "the stream was not called as specified, at call " \o ToString(calls + 1)
    /\ UNCHANGED <<sVars, t, l>>
Over == why # "" /\ UNCHANGED vars
Next == Step \/ Ask \/ End \/ Stuck \/ Over
Spec == Init /\ [][Next]_vars
Conforms == why \in {"", "fine"}
=============================================================================
