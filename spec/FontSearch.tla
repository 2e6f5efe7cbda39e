---------------------------- MODULE FontSearch ----------------------------
(***************************************************************************)
(* The design of the character map (C24): halving search for the segment of  *)
(* a character, and the walk over all segments that gives the reverse map,    *)
(* for every table in order over the codes 0..K; and the walk's promise to     *)
(* meet each code once even where tables are not in order.                    *)
(*                                                                         *)
(* Tables are also exported (Emit), each segment with one of Schemes ways to   *)
(* assign glyphs, to be built as real fonts.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, MaxSegments, Disorder, Schemes, Emit
Codes == 0..K
Segs == {s \in Codes \X Codes : s[1] <= s[2]}
RECURSIVE InOrder(_)
\* Sequences of disjoint segments in order, after code `from`
InOrderFrom(from) == {s \in Segs : s[1] >= from}
RECURSIVE Tables(_, _)
Tables(n, from) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup UNION {{<<s>> \o r : r \in Tables(n - 1, s[2] + 1)} : s \in InOrderFrom(from)}
InOrder(n) == Tables(n, 0)
AnyOrder == UNION {[1..n -> Codes \X Codes] : n \in 0..MaxSegments}

VARIABLES table, code, pc, size, base, walk, unseen
vars == <<table, code, pc, size, base, walk, unseen>>

Init ==
    /\ table \in (IF Disorder THEN AnyOrder ELSE InOrder(MaxSegments))
    /\ code \in (IF Disorder THEN {0} ELSE Codes)
    /\ pc = (IF Disorder THEN "walk" ELSE "search")
    /\ size = Len(table) /\ base = 0
    /\ walk = <<>> /\ unseen = 0

\* Where segment k is, seen from the code
Cmp(k) == IF code > table[k + 1][2] THEN "less" ELSE IF code < table[k + 1][1] THEN "greater" ELSE "equal"
Search ==
    /\ pc = "search" /\ size > 1
    /\ LET half == size \div 2 mid == base + half
       IN base' = (IF Cmp(mid) = "greater" THEN base ELSE mid) /\ size' = size - half
    /\ UNCHANGED <<table, code, pc, walk, unseen>>
Found == size > 0 /\ Cmp(base) = "equal"
Answer ==
    /\ pc = "search" /\ size <= 1
    /\ pc' = (IF code = 0 THEN "walk" ELSE "done")
    /\ size' = (IF Found THEN 1 ELSE 0)   \* whether there is one
    /\ UNCHANGED <<table, code, base, walk, unseen>>
\* One segment at a time; base and size keep the answer of the search
Walked == Len(walk)
Step ==
    /\ pc = "walk" /\ Walked < Len(table)
    /\ LET s == table[Walked + 1]
       IN /\ walk' = Append(walk, {c \in Codes : c >= s[1] /\ c >= unseen /\ c <= s[2]})
          /\ unseen' = IF s[2] + 1 > unseen THEN s[2] + 1 ELSE unseen
    /\ UNCHANGED <<table, code, pc, size, base>>
End == pc = "walk" /\ Walked = Len(table) /\ pc' = "done" /\ UNCHANGED <<table, code, size, base, walk, unseen>>
Done == pc = "done" /\ UNCHANGED vars
Next == Search \/ Answer \/ Step \/ End \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Has(c) == {k \in DOMAIN table : table[k][1] <= c /\ c <= table[k][2]}
\* The search looks at segments that exist only, and keeps the one it is for
InRange == pc = "search" => base + size <= Len(table)
Kept == (pc = "search" /\ ~Disorder) => \A k \in Has(code) : base < k /\ k <= base + size
Right == (pc # "search" /\ ~Disorder) => IF Has(code) = {} THEN size = 0 ELSE size = 1 /\ Has(code) = {base + 1}
\* The walk meets each code that has a segment, in its segment, once
MeetsAll == (pc = "done" /\ walk # <<>> /\ ~Disorder) => \A k \in DOMAIN table : walk[k] = table[k][1]..table[k][2]
MeetsOnce == \A j, k \in DOMAIN walk : j # k => walk[j] \cap walk[k] = {}
Terminates == <>(pc = "done")
Export == (Emit /\ pc = "done" /\ code = 0) =>
    \A sch \in [DOMAIN table -> 1..Schemes] : PrintT("@@" \o ToJson([k \in DOMAIN table |-> <<table[k][1], table[k][2], sch[k]>>]))
=============================================================================
