----------------------------- MODULE PngStream -----------------------------
(***************************************************************************)
(* A PNG library in C that reads or writes through callbacks, and someone   *)
(* else's stream in Rust behind them (lester/src/cairo.rs).                 *)
(*                                                                          *)
(* The library asks the callback for requests of n bytes, to be met in full *)
(* or refused.  The callback repeats calls of the stream, each for what is  *)
(* left of the request.  The stream may do less than asked, be interrupted, *)
(* give up (0 bytes), fail with an error of its own, or panic.  A panic     *)
(* must not cross the C library: it is kept, and resumed after the library  *)
(* returned.  The library may call again after a refusal for an error       *)
(* (Persistent), the stream must then not be called again.                  *)
(*                                                                          *)
(* end: how the whole operation ends: "" not yet; "ok"; "short" (the stream *)
(* gave up); "error" and "panic" of call `at` with `kind`; "invalid" (the   *)
(* library does not want the data).                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES
    asked,   \* what is left of the present request
    moved,   \* bytes moved by the stream, all together
    calls,   \* calls of the stream
    kept,    \* what the callback keeps for later: [what, at, kind]
    state,   \* "library", "callback", "returned"
    end      \* what the caller sees
sVars == <<asked, moved, calls, kept, state, end>>

Nothing == [what |-> "", at |-> 0, kind |-> ""]

SInit ==
    /\ asked = 0 /\ moved = 0 /\ calls = 0
    /\ kept = Nothing /\ state = "library" /\ end = Nothing

\* The library wants n more bytes to be moved
Request(n) ==
    /\ state = "library" /\ n > 0 /\ kept = Nothing
    /\ asked' = n /\ state' = "callback"
    /\ UNCHANGED <<moved, calls, kept, end>>

\* It does so again although it was refused: nothing happens
RequestAgain ==
    /\ state = "library" /\ kept.what = "error"
    /\ UNCHANGED sVars

\* One call of the stream
Move(k) ==
    /\ state = "callback" /\ k \in 1..asked
    /\ calls' = calls + 1 /\ moved' = moved + k /\ asked' = asked - k
    /\ state' = IF k = asked THEN "library" ELSE "callback"
    /\ UNCHANGED <<kept, end>>
Interrupted ==
    /\ state = "callback"
    /\ calls' = calls + 1
    /\ UNCHANGED <<asked, moved, kept, state, end>>
Stops(what, kind) ==
    /\ state = "callback"
    /\ calls' = calls + 1
    /\ kept' = [what |-> what, at |-> calls + 1, kind |-> kind]
    /\ state' = "library"
    /\ UNCHANGED <<asked, moved, end>>
GivesUp == Stops("short", "")
Fails(kind) == Stops("error", kind)
Panics(kind) == Stops("panic", kind)

\* The library is done, and what was kept is handed to the caller
Return(what) ==
    /\ state = "library" /\ end = Nothing
    /\ state' = "returned"
    /\ end' = IF kept # Nothing THEN kept ELSE [Nothing EXCEPT !.what = what]
    /\ UNCHANGED <<asked, moved, calls, kept>>
=============================================================================
