----------------------------- MODULE PagesIter -----------------------------
(***************************************************************************)
(* Taking the pages of a document from both ends (lester/src/poppler.rs).   *)
(* What is left are the pages lo .. hi-1.  Each operation gives the pages   *)
(* taken, as a sequence of indices, and a number.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES
    count,  \* pages in the document, 0 if it is none
    lo, hi, \* what is left
    gone,   \* the iterator was consumed
    answer  \* [pages, number] of the last operation
pVars == <<count, lo, hi, gone, answer>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Left == hi - lo
Quiet == [pages |-> <<>>, number |-> 0]
One(i) == [pages |-> <<i>>, number |-> 0]

PInit == lo = 0 /\ hi = count /\ gone = FALSE /\ answer = Quiet

\* k pages are passed over and the next one is given, if there is one
Front(k) ==
    /\ ~gone
    /\ lo' = Min(lo + k + 1, hi)
    /\ answer' = IF k < Left THEN One(lo + k) ELSE Quiet
    /\ UNCHANGED <<count, hi, gone>>
Back(k) ==
    /\ ~gone
    /\ hi' = IF k < Left THEN hi - k - 1 ELSE lo
    /\ answer' = IF k < Left THEN One(hi - 1 - k) ELSE Quiet
    /\ UNCHANGED <<count, lo, gone>>
Length ==
    /\ ~gone
    /\ answer' = [pages |-> <<>>, number |-> Left]
    /\ UNCHANGED <<count, lo, hi, gone>>

\* All that is left, in one of several ways
Consume(pages, number) ==
    /\ ~gone /\ gone' = TRUE /\ lo' = hi
    /\ answer' = [pages |-> pages, number |-> number]
    /\ UNCHANGED <<count, hi>>
Count == Consume(<<>>, Left)
Last == Consume(IF Left = 0 THEN <<>> ELSE <<hi - 1>>, 0)
Reversed == Consume([j \in 1..Left |-> hi - j], 0)
All == Consume([j \in 1..Left |-> lo + j - 1], 0)
StepBy(k) == Consume([j \in 1..((Left + k - 1) \div k) |-> lo + (j - 1) * k], 0)
=============================================================================
