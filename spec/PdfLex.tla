------------------------------- MODULE PdfLex -------------------------------
(***************************************************************************)
(* Lexical syntax of PDF numbers, names and strings (C20): an automaton     *)
(* that reads one token byte by byte and builds its value.  Every trace is  *)
(* one token as written in a real file, with the value that was given to    *)
(* the API.  Nothing but the syntax below is accepted: a trace that cannot  *)
(* be read to its end is a deadlock, and a wrong value falsifies Value.     *)
(*                                                                          *)
(* Numbers are compared by their first 8 significant digits and exponent:   *)
(* 0.00125 is 12500000 with exponent -3.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, st, out, neg, digits, expo, pending, depth
vars == <<t, l, st, out, neg, digits, expo, pending, depth>>
\* out: bytes of a name or string; digits: significant digits so far, at most 8;
\* expo: exponent of the first one; pending: half an escape

Tr == Traces[t]
More == l <= Len(Tr.raw)
B == Tr.raw[l]
Adv == l' = l + 1 /\ t' = t

Init == /\ t \in DOMAIN Traces /\ l = 1 /\ out = <<>> /\ neg = FALSE
        /\ digits = <<>> /\ expo = 0 /\ pending = -1 /\ depth = 0
        /\ st = Traces[t].k      \* "number", "name", "string", "hex"

Digit(b) == b \in 48..57
White == {0, 9, 10, 12, 13, 32}
Delim == {40, 41, 60, 62, 91, 93, 123, 125, 47, 37}
HexVal(b) == IF b \in 48..57 THEN b - 48 ELSE IF b \in 65..70 THEN b - 55 ELSE IF b \in 97..102 THEN b - 87 ELSE -1

\* ---- numbers: [+-] digits [. digits] with at least one digit
Sign == /\ st = "number" /\ More /\ B \in {43, 45} /\ Adv /\ st' = "int0"
        /\ neg' = (B = 45) /\ UNCHANGED <<out, digits, expo, pending, depth>>
IntDigit == /\ st \in {"number", "int0", "int"} /\ More /\ Digit(B) /\ Adv /\ st' = "int"
            /\ LET significant == digits # <<>> \/ B # 48
               IN /\ digits' = IF significant /\ Len(digits) < 8 THEN Append(digits, B - 48) ELSE digits
                  /\ expo' = IF digits # <<>> THEN expo + 1 ELSE 0
            /\ UNCHANGED <<out, neg, pending, depth>>
Point == /\ More /\ B = 46 /\ Adv
         /\ \/ st = "int" /\ st' = "frac"
            \/ st \in {"number", "int0"} /\ st' = "frac0"
         /\ expo' = IF digits = <<>> THEN -1 ELSE expo
         /\ UNCHANGED <<out, neg, digits, pending, depth>>
FracDigit == /\ st \in {"frac", "frac0"} /\ More /\ Digit(B) /\ Adv /\ st' = "frac"
             /\ IF digits = <<>> /\ B = 48 THEN expo' = expo - 1 /\ digits' = digits
                ELSE expo' = expo /\ digits' = IF Len(digits) < 8 THEN Append(digits, B - 48) ELSE digits
             /\ UNCHANGED <<out, neg, pending, depth>>

\* ---- names, without the slash: regular characters and #xx
NameByte == /\ st = "name" /\ More /\ B \notin White \union Delim \union {35} /\ Adv
            /\ out' = Append(out, B) /\ UNCHANGED <<st, neg, digits, expo, pending, depth>>
NameHash == /\ st = "name" /\ More /\ B = 35 /\ Adv /\ st' = "hash1"
            /\ UNCHANGED <<out, neg, digits, expo, pending, depth>>
NameHash1 == /\ st = "hash1" /\ More /\ HexVal(B) >= 0 /\ Adv /\ st' = "hash2" /\ pending' = HexVal(B)
             /\ UNCHANGED <<out, neg, digits, expo, depth>>
NameHash2 == /\ st = "hash2" /\ More /\ HexVal(B) >= 0 /\ Adv /\ st' = "name" /\ pending' = -1
             /\ out' = Append(out, 16 * pending + HexVal(B)) /\ UNCHANGED <<neg, digits, expo, depth>>

\* ---- hexadecimal strings
HexOpen == /\ st = "hex" /\ More /\ B = 60 /\ Adv /\ st' = "hex1"
           /\ UNCHANGED <<out, neg, digits, expo, pending, depth>>
HexFirst == /\ st = "hex1" /\ More /\ HexVal(B) >= 0 /\ Adv /\ st' = "hex2" /\ pending' = HexVal(B)
            /\ UNCHANGED <<out, neg, digits, expo, depth>>
HexSecond == /\ st = "hex2" /\ More /\ HexVal(B) >= 0 /\ Adv /\ st' = "hex1" /\ pending' = -1
             /\ out' = Append(out, 16 * pending + HexVal(B)) /\ UNCHANGED <<neg, digits, expo, depth>>
HexSpace == /\ st \in {"hex1", "hex2"} /\ More /\ B \in White /\ Adv
            /\ UNCHANGED <<st, out, neg, digits, expo, pending, depth>>
HexClose == /\ st \in {"hex1", "hex2"} /\ More /\ B = 62 /\ Adv /\ st' = "closed"
            /\ out' = IF st = "hex2" THEN Append(out, 16 * pending) ELSE out
            /\ UNCHANGED <<neg, digits, expo, pending, depth>>

\* ---- literal strings
Escapes == (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (98 :> 8) @@ (102 :> 12)
StrOpen == /\ st = "string" /\ More /\ B = 40 /\ Adv /\ st' = "str" /\ depth' = 1
           /\ UNCHANGED <<out, neg, digits, expo, pending>>
StrByte == /\ st \in {"str", "strcr"} /\ More /\ B \notin {40, 41, 92, 13} /\ Adv /\ st' = "str"
           \* an end of line of any kind reads as one line feed
           /\ out' = IF st = "strcr" /\ B = 10 THEN out ELSE Append(out, B)
           /\ UNCHANGED <<neg, digits, expo, pending, depth>>
StrCr == /\ st \in {"str", "strcr"} /\ More /\ B = 13 /\ Adv /\ st' = "strcr"
         /\ out' = Append(out, 10) /\ UNCHANGED <<neg, digits, expo, pending, depth>>
StrParen == /\ st \in {"str", "strcr"} /\ More /\ B = 40 /\ Adv /\ st' = "str"
            /\ depth' = depth + 1 /\ out' = Append(out, B) /\ UNCHANGED <<neg, digits, expo, pending>>
StrClose == /\ st \in {"str", "strcr"} /\ More /\ B = 41 /\ Adv
            /\ depth' = depth - 1
            /\ st' = IF depth = 1 THEN "closed" ELSE "str"
            /\ out' = IF depth = 1 THEN out ELSE Append(out, B)
            /\ UNCHANGED <<neg, digits, expo, pending>>
StrEsc == /\ st \in {"str", "strcr"} /\ More /\ B = 92 /\ Adv /\ st' = "esc"
          /\ UNCHANGED <<out, neg, digits, expo, pending, depth>>
StrEscaped == /\ st = "esc" /\ More /\ Adv
              /\ \/ /\ B \in DOMAIN Escapes /\ out' = Append(out, Escapes[B]) /\ st' = "str" /\ pending' = pending
                 \/ /\ B \in 48..55 /\ pending' = B - 48 /\ st' = "oct2" /\ out' = out
                 \/ /\ B \notin DOMAIN Escapes \union (48..55) \union {10, 13}
                    /\ out' = Append(out, B) /\ st' = "str" /\ pending' = pending
                 \/ /\ B = 10 /\ out' = out /\ st' = "str" /\ pending' = pending
              /\ UNCHANGED <<neg, digits, expo, depth>>
Octal == /\ st \in {"oct2", "oct3"} /\ More /\ B \in 48..55 /\ Adv
         /\ IF st = "oct2" THEN pending' = 8 * pending + B - 48 /\ st' = "oct3" /\ out' = out
            ELSE pending' = -1 /\ st' = "str" /\ out' = Append(out, (8 * pending + B - 48) % 256)
         /\ UNCHANGED <<neg, digits, expo, depth>>
OctalEnd == /\ st \in {"oct2", "oct3"} /\ More /\ B \notin 48..55 /\ st' = "str" /\ l' = l /\ t' = t
            /\ out' = Append(out, pending) /\ pending' = -1 /\ UNCHANGED <<neg, digits, expo, depth>>

AtEnd == /\ l = Len(Tr.raw) + 1
         /\ st \in {"int", "frac", "name", "closed"}
Done == AtEnd /\ UNCHANGED vars

Next == Sign \/ IntDigit \/ Point \/ FracDigit \/ NameByte \/ NameHash \/ NameHash1 \/ NameHash2
        \/ HexOpen \/ HexFirst \/ HexSecond \/ HexSpace \/ HexClose
        \/ StrOpen \/ StrByte \/ StrCr \/ StrParen \/ StrClose \/ StrEsc \/ StrEscaped \/ Octal \/ OctalEnd \/ Done
Spec == Init /\ [][Next]_vars

RECURSIVE Int8(_, _)
Int8(d, k) == IF k = 0 THEN 0 ELSE 10 * Int8(d, k - 1) + (IF k <= Len(d) THEN d[k] ELSE 0)
Abs(x) == IF x < 0 THEN -x ELSE x
Zero(d) == d = <<>>
SameNumber(ad, ae, bd, be, tol) ==
  IF Zero(ad) \/ Zero(bd) THEN Zero(ad) /\ Zero(bd)
  ELSE LET a == Int8(ad, 8) b == Int8(bd, 8)
       IN IF ae = be THEN Abs(a - b) <= tol
          ELSE IF ae = be + 1 THEN Abs(10 * a - b) <= 10 * tol
          ELSE IF be = ae + 1 THEN Abs(10 * b - a) <= 10 * tol
          ELSE FALSE
Value == AtEnd =>
  IF Tr.k = "number"
  THEN SameNumber(digits, expo, Tr.digits, Tr.expo, Tr.tol) /\ (~Zero(digits) => neg = Tr.neg)
  ELSE out = Tr.value
=============================================================================
