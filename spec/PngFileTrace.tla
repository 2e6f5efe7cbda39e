---------------------------- MODULE PngFileTrace ----------------------------
(***************************************************************************)
(* Named files: the stream is a file with room for `capacity` bytes, behind *)
(* a buffer of B bytes that passes on what it holds when it is full, and    *)
(* when it is flushed at the end (write_to_png_file, read_from_png_file).   *)
(* Whatever B is, success means that the file holds exactly the image, and  *)
(* everything else is an error.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS ImageFile, TraceFile
Images == ndJsonDeserialize(ImageFile)
Traces == ndJsonDeserialize(TraceFile)

VARIABLES
    t, why,
    buffered, \* bytes in the buffer
    stored,   \* bytes in the file
    failed
vars == <<t, why, buffered, stored, failed>>
T == Traces[t]
I == Images[T.image]
Size == Len(I.bytes)
Buffers == {1, 100, 8192}

Premultiplied(c, a) == LET x == c * a + 128 IN (x + x \div 256) \div 256
InCairo(p) == <<p[4], Premultiplied(p[1], p[4]), Premultiplied(p[2], p[4]), Premultiplied(p[3], p[4])>>

Init == t \in DOMAIN Traces /\ why = "" /\ buffered = 0 /\ stored = 0 /\ failed = ~T.opens
VARIABLE b
Pour(n) ==   \* n bytes of the buffer to the file
    IF stored + n <= T.capacity THEN stored' = stored + n /\ buffered' = buffered - n /\ failed' = FALSE
    ELSE stored' = T.capacity /\ failed' = TRUE /\ UNCHANGED buffered
Writing == T.mode = "writefile" /\ why = "" /\ ~failed /\ stored + buffered < Size
Fill ==
    /\ Writing /\ buffered < b
    /\ buffered' = buffered + (IF Size - stored - buffered < b - buffered THEN Size - stored - buffered ELSE b - buffered)
    /\ UNCHANGED <<t, why, stored, failed, b>>
Full == Writing /\ buffered = b /\ Pour(b) /\ UNCHANGED <<t, why, b>>
Flush ==
    /\ T.mode = "writefile" /\ why = "" /\ ~failed /\ stored + buffered = Size /\ buffered > 0
    /\ Pour(buffered) /\ UNCHANGED <<t, why, b>>
Written ==
    /\ T.mode = "writefile" /\ why = "" /\ (failed \/ stored = Size)
    /\ why' = IF failed /\ T.result # "io" THEN "the file could not take it, the caller was told " \o T.result
              ELSE IF ~failed /\ T.result # "ok" THEN "there was room, the caller was told " \o T.result
              ELSE IF ~failed /\ T.after # I.bytes THEN "the file does not hold the image"
              ELSE "fine"
    /\ UNCHANGED <<t, buffered, stored, failed, b>>
Read ==
    /\ T.mode = "readfile" /\ why = ""
    /\ why' = IF T.result = "ok"
              THEN IF ~T.valid THEN "fine"
                   ELSE IF ~T.opens \/ T.n < Size THEN "success without the image"
                   ELSE IF T.got # [k \in DOMAIN I.px |-> InCairo(I.px[k])] THEN "other pixels" ELSE "fine"
              ELSE IF T.result \notin {"io", "cairo"} THEN "no error was handed back: " \o T.result
              ELSE IF T.opens /\ T.valid /\ T.n = Size THEN "the file holds the image, the caller was told " \o T.result
              ELSE IF ~T.opens /\ T.result # "io" THEN "the failure to open the file was reported as " \o T.result
              ELSE "fine"
    /\ UNCHANGED <<t, buffered, stored, failed, b>>
Over == why # "" /\ UNCHANGED <<vars, b>>
Next == Fill \/ Full \/ Flush \/ Written \/ Read \/ Over
Spec == Init /\ b \in Buffers /\ [][Next]_<<vars, b>>
Conforms == why \in {"", "fine"}
Accounted == stored + buffered <= Size /\ (T.mode = "writefile" => stored <= T.capacity \/ stored = 0)
=============================================================================
