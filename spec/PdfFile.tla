------------------------------- MODULE PdfFile ------------------------------
(***************************************************************************)
(* The structure of a PDF file (C17), as an automaton that reads the file   *)
(* from start to end: header, numbered objects, cross-reference table,      *)
(* trailer.  Each event of a trace is one element of the file, with the     *)
(* byte offsets where an independent reader found it.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, phase, pos, offsets, refs, table, table_at
vars == <<t, l, phase, pos, offsets, refs, table, table_at>>

Init == /\ t \in DOMAIN Traces /\ l = 1 /\ phase = "start" /\ pos = 0
        /\ offsets = <<>>   \* object number -> offset
        /\ refs = {} /\ table = <<>> /\ table_at = 0

Ev == Traces[t].ev[l]
IsEvent(e) == l <= Len(Traces[t].ev) /\ Ev.e = e /\ l' = l + 1 /\ t' = t
Range(s) == {s[i] : i \in DOMAIN s}

Header == /\ IsEvent("header") /\ phase = "start"
          /\ Ev.start = 0
          /\ pos' = Ev.end /\ phase' = "body"
          /\ UNCHANGED <<offsets, refs, table, table_at>>

Object == /\ IsEvent("obj") /\ phase = "body"
          /\ Ev.start >= pos /\ Ev.end > Ev.start
          /\ Ev.id > 0 /\ Ev.gen = 0 /\ Ev.badgen = 0
          /\ Ev.id \notin DOMAIN offsets          \* no object is defined twice
          /\ Ev.declared = Ev.actual               \* stream lengths match
          /\ offsets' = offsets @@ (Ev.id :> Ev.start)
          /\ refs' = refs \union Range(Ev.refs)
          /\ pos' = Ev.end
          /\ UNCHANGED <<phase, table, table_at>>

Xref == /\ IsEvent("xref") /\ phase = "body"
        /\ Ev.start >= pos
        /\ LET ids == {Ev.entries[i].id : i \in DOMAIN Ev.entries}
               inuse == {i \in DOMAIN Ev.entries : Ev.entries[i].inuse}
           IN /\ Cardinality(ids) = Len(Ev.entries)
              \* entry 0 heads the list of free objects
              /\ \E i \in DOMAIN Ev.entries : Ev.entries[i].id = 0 /\ ~Ev.entries[i].inuse /\ Ev.entries[i].gen = 65535
              /\ {Ev.entries[i].id : i \in inuse} = DOMAIN offsets
              \* each object is found at exactly the offset its entry gives
              /\ \A i \in inuse : Ev.entries[i].gen = 0 /\ Ev.entries[i].off = offsets[Ev.entries[i].id]
              /\ table' = ids
        /\ table_at' = Ev.start
        /\ phase' = "trailer"
        /\ UNCHANGED <<pos, offsets, refs>>

Trailer == /\ IsEvent("trailer") /\ phase = "trailer"
           /\ Ev.size = Cardinality(table)
           /\ \A i \in table : i < Ev.size
           /\ Ev.root \in DOMAIN offsets
           /\ Ev.startxref = table_at
           /\ (refs \union Range(Ev.refs)) \subseteq DOMAIN offsets    \* no dangling reference
           /\ phase' = "end"
           /\ UNCHANGED <<pos, offsets, refs, table, table_at>>

Done == phase = "end" /\ l = Len(Traces[t].ev) + 1 /\ UNCHANGED vars
Next == Header \/ Object \/ Xref \/ Trailer \/ Done
Spec == Init /\ [][Next]_vars

\* What has been read so far never overlaps
Ordered == \A i \in DOMAIN offsets : offsets[i] < pos \/ pos = 0
=============================================================================
