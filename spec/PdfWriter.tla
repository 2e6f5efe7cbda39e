------------------------------ MODULE PdfWriter -----------------------------
(***************************************************************************)
(* Writing a PDF to a destination that may fail (C21), and the offsets that *)
(* are recorded meanwhile (C17).                                            *)
(*                                                                          *)
(* The file is a sequence of chunks.  Each is written with write_all: it is *)
(* offered to the destination until all of it has been accepted; Accept may *)
(* take any part of what is offered (a short write), Interrupt nothing.     *)
(* Fail (an error, or a destination that takes nothing any more) ends the   *)
(* attempt.  A chunk that starts an object records the number of bytes      *)
(* written so far, as counted by the writer; Target says what it must be.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxChunks, MaxLen, MaxInterrupts, MaxAttempts

VARIABLES chunks,     \* lengths of the chunks, and whether each starts an object
          i,          \* chunk being written
          left,       \* bytes of it not accepted yet
          accepted,   \* bytes the destination has accepted, in this attempt
          counted,    \* the writer's own count
          offsets,    \* recorded offsets
          interrupts, attempts, result
vars == <<chunks, i, left, accepted, counted, offsets, interrupts, attempts, result>>

Chunk == [len : 1..MaxLen, obj : BOOLEAN]
Files == UNION {[1..n -> Chunk] : n \in 1..MaxChunks}
RECURSIVE Sum(_, _)
Sum(c, n) == IF n = 0 THEN 0 ELSE c[n].len + Sum(c, n - 1)
Total == Sum(chunks, Len(chunks))

Start(n) == /\ i' = 1 /\ left' = chunks[1].len /\ accepted' = 0
            /\ counted' = 0 /\ offsets' = <<>> /\ result' = "writing" /\ attempts' = n

Init == /\ chunks \in Files /\ i = 1 /\ left = chunks[1].len /\ accepted = 0
        /\ counted = 0 /\ offsets = <<>> /\ interrupts = 0 /\ attempts = 1 /\ result = "writing"

\* Entering a chunk: record its offset, count it as CountingWrite::write_all does
Begin == /\ result = "writing" /\ i <= Len(chunks) /\ counted = Sum(chunks, i - 1)
         /\ offsets' = IF chunks[i].obj THEN Append(offsets, counted) ELSE offsets
         /\ counted' = counted + chunks[i].len
         /\ UNCHANGED <<chunks, i, left, accepted, interrupts, attempts, result>>
InChunk == result = "writing" /\ i <= Len(chunks) /\ counted = Sum(chunks, i)

Accept(n) == /\ InChunk /\ n \in 1..left
             /\ accepted' = accepted + n
             /\ IF n < left THEN left' = left - n /\ i' = i
                ELSE i' = i + 1 /\ left' = IF i < Len(chunks) THEN chunks[i + 1].len ELSE 0
             /\ UNCHANGED <<chunks, counted, offsets, interrupts, attempts, result>>
Interrupt == /\ InChunk /\ interrupts < MaxInterrupts
             /\ interrupts' = interrupts + 1
             /\ UNCHANGED <<chunks, i, left, accepted, counted, offsets, attempts, result>>
Fail == /\ InChunk /\ result' = "error"
        /\ UNCHANGED <<chunks, i, left, accepted, counted, offsets, interrupts, attempts>>
Finish == /\ result = "writing" /\ i = Len(chunks) + 1 /\ result' = "ok"
          /\ UNCHANGED <<chunks, i, left, accepted, counted, offsets, interrupts, attempts>>
\* A failed attempt leaves the document as it was: another one can be made
Retry == /\ result \in {"error", "ok"} /\ attempts < MaxAttempts
         /\ Start(attempts + 1) /\ UNCHANGED <<chunks, interrupts>>

Next == Begin \/ (\E n \in 1..MaxLen : Accept(n)) \/ Interrupt \/ Fail \/ Finish \/ Retry
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Objects == SelectSeq([k \in DOMAIN chunks |-> [o |-> chunks[k].obj, at |-> Sum(chunks, k - 1)]],
                     LAMBDA x : x.o)
SuccessMeansAll == result = "ok" => accepted = Total
OffsetsAreRight == /\ Len(offsets) <= Len(Objects)
                   /\ \A k \in DOMAIN offsets : offsets[k] = Objects[k].at
                   /\ result = "ok" => Len(offsets) = Len(Objects)
NothingTwice == accepted <= Total
Ends == <>(result \in {"ok", "error"})
=============================================================================
