------------------------------ MODULE FontFile ------------------------------
(***************************************************************************)
(* What a sequence of bytes means as a TrueType font (C24, C25).            *)
(*                                                                         *)
(* A file is [b, n, ov]: the bytes of a base file, the length it is cut to,  *)
(* and overrides <<position, byte>>.  Positions and 32-bit values are        *)
(* clamped to Big, which is beyond the end of any file and above any code     *)
(* point.                                                                   *)
(*                                                                         *)
(* Verdicts are "ok" (the data means something, which is given), "err"       *)
(* (something needed is not there: no value can be right) or "any" (the       *)
(* format's own rules are broken, for instance tables out of order: whatever   *)
(* comes out, it has to come out).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Big == 536870912
Out == 0 - 1
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Plus(a, b) == Min(Big, a + b)

Byte(f, p) ==
    LET o == {k \in DOMAIN f.ov : f.ov[k][1] = p}
    IN IF o = {} THEN f.b[p + 1] ELSE f.ov[CHOOSE k \in o : \A j \in o : j <= k][2]
\* Out: not within the data
U16(f, p) == IF p = Out \/ p + 2 > f.n THEN Out ELSE Byte(f, p) * 256 + Byte(f, p + 1)
U32(f, p) ==
    IF p = Out \/ p + 4 > f.n THEN Out
    ELSE IF Byte(f, p) >= 32 THEN Big
    ELSE ((Byte(f, p) * 256 + Byte(f, p + 1)) * 256 + Byte(f, p + 2)) * 256 + Byte(f, p + 3)
Tag(f, p) == IF p + 4 > f.n THEN <<Out, Out>> ELSE <<U16(f, p), U16(f, p + 2)>>
Less(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])

Ok(v) == [v |-> "ok", x |-> v]
Err == [v |-> "err", x |-> Out]
Any == [v |-> "any", x |-> Out]
Read(x) == IF x = Out THEN Err ELSE Ok(x)
\* The worst of several
All(S) == IF "err" \in S THEN "err" ELSE IF "any" \in S THEN "any" ELSE "ok"   \* S: verdicts

-----------------------------------------------------------------------------
(* The table directory                                                     *)
TagOf(f, k) == Tag(f, 12 + 16 * (k - 1))
\* n: a record that is not wholly within the data
Directory(f) ==
    LET n == U16(f, 4)
        read == Min(n, (f.n - 12) \div 16)
    IN [n |-> n, read |-> IF f.n < 12 THEN 0 ELSE read,
        sound |-> n # Out /\ f.n >= 12 + 16 * n /\ \A k \in 1..(n - 1) : Less(TagOf(f, k), TagOf(f, k + 1))]

\* The position of a table
Table(f, d, tag) ==
    LET found == {k \in 1..d.read : TagOf(f, k) = tag}
    IN IF found = {} THEN Err
       ELSE IF ~d.sound THEN Any
       ELSE Read(U32(f, 12 + 16 * ((CHOOSE k \in found : TRUE) - 1) + 8))

CMAP == <<25453, 24944>>   \* "cm" "ap"
HEAD == <<26725, 24932>>
HHEA == <<26728, 25953>>
HMTX == <<26733, 29816>>
MAXP == <<28001, 30832>>
NAME == <<28257, 28005>>

Then(r, P(_)) == IF r.v = "ok" THEN P(r.x) ELSE r
U16At(f, r, off) == Then(r, LAMBDA p : Read(U16(f, Plus(p, off))))

-----------------------------------------------------------------------------
(* The PostScript name                                                     *)
\* The first record with the right identifier in an encoding that can be read
NameOf(f, d) ==
    Then(Table(f, d, NAME), LAMBDA t :
    LET n == U16(f, Plus(t, 2)) so == U16(f, Plus(t, 4)) IN
    IF n = Out \/ so = Out THEN Err ELSE
    LET rec(k) == Plus(t, 6 + 12 * (k - 1))
        whole == {k \in 1..n : rec(k) + 12 <= f.n}
        good == {k \in whole : /\ U16(f, rec(k) + 6) = 6
                               /\ \/ U16(f, rec(k)) = 1
                                  \/ U16(f, rec(k)) = 3 /\ U16(f, rec(k) + 2) = 1}
    IN IF good = {} THEN Err
       ELSE LET k == CHOOSE x \in good : \A y \in good : x <= y
                at == Plus(Plus(t, so), U16(f, rec(k) + 10))
            IN IF at + U16(f, rec(k) + 8) > f.n THEN Err ELSE Ok(k))

-----------------------------------------------------------------------------
(* The character map                                                       *)
\* The last subtable of a kind that is understood
CmapOf(f, d) ==
    Then(Table(f, d, CMAP), LAMBDA t :
    LET n == U16(f, Plus(t, 2)) IN
    IF n = Out THEN Err ELSE
    LET rec(k) == Plus(t, 4 + 8 * (k - 1))
        whole == {k \in 1..n : rec(k) + 8 <= f.n}
        at(k) == Plus(t, U32(f, rec(k) + 4))
        good == {k \in whole : LET fmt == U16(f, at(k)) IN
                    /\ U16(f, rec(k)) = 3
                    /\ (U16(f, rec(k) + 2) = 1 /\ fmt = 4) \/ (U16(f, rec(k) + 2) = 10 /\ fmt = 12)}
        k == CHOOSE x \in good : \A y \in good : y <= x
    IN IF good = {} THEN Err
       \* what cannot be read might have been preferred
       ELSE IF whole # 1..n \/ \E y \in whole : y > k /\ U16(f, at(y)) = Out THEN Any
       ELSE LET fmt == U16(f, at(k))
                cnt == IF fmt = 4 THEN U16(f, at(k) + 6) ELSE U32(f, at(k) + 12)
            IN IF cnt = Out THEN Err
               ELSE Ok([at |-> at(k), fmt |-> fmt, n |-> IF fmt = 4 THEN cnt \div 2 ELSE cnt]))

\* Segments of format 4, groups of format 12
Start(f, m, k) == IF m.fmt = 4 THEN U16(f, m.at + 16 + 2 * m.n + 2 * (k - 1)) ELSE U32(f, m.at + 16 + 12 * (k - 1))
End(f, m, k) == IF m.fmt = 4 THEN U16(f, m.at + 14 + 2 * (k - 1)) ELSE U32(f, m.at + 20 + 12 * (k - 1))
\* All of them can be read
Within(f, m) == IF m.fmt = 4 THEN m.at + 16 + 8 * m.n <= f.n ELSE m.n <= f.n /\ m.at + 16 + 12 * m.n <= f.n
Sorted(f, m) == /\ Within(f, m)
                /\ \A k \in 1..m.n : Start(f, m, k) <= End(f, m, k) /\ (k > 1 => End(f, m, k - 1) < Start(f, m, k))

\* The glyph that segment k gives to character c
GlyphIn(f, m, k, c) ==
    IF m.fmt = 12
    THEN LET g == Plus(U32(f, m.at + 24 + 12 * (k - 1)), c - Start(f, m, k))
         IN Ok(IF g <= 65535 THEN g ELSE 0)
    ELSE LET dp == U16(f, m.at + 16 + 4 * m.n + 2 * (k - 1))
             rp == m.at + 16 + 6 * m.n + 2 * (k - 1)
             r == U16(f, rp)
         IN IF r = 0 THEN Ok((c + dp) % 65536)
            ELSE LET g == U16(f, rp + r + 2 * (c - Start(f, m, k)))
                 IN IF g = Out THEN Err ELSE IF r % 2 = 1 THEN Any
                    ELSE Ok(IF g = 0 THEN 0 ELSE (g + dp) % 65536)

\* For a table in order
Lookup(f, m, c) ==
    LET s == {k \in 1..m.n : Start(f, m, k) <= c /\ c <= End(f, m, k)}
    IN IF s = {} THEN Ok(0) ELSE GlyphIn(f, m, CHOOSE k \in s : TRUE, c)

IsChar(c) == c <= 1114111 /\ ~(55296 <= c /\ c <= 57343)
Entries(f, m) == UNION {{<<c, GlyphIn(f, m, k, c)>> : c \in Start(f, m, k)..Min(1114111, End(f, m, k))} : k \in 1..m.n}

-----------------------------------------------------------------------------
(* The font as a whole                                                     *)
Scaler(f) == LET s == U32(f, 0) IN IF s = Out THEN Err
             ELSE IF s = 65536 \/ Tag(f, 0) = <<29810, 30053>> THEN Ok(s) ELSE Err

Font(f) ==
    LET d == Directory(f)
        maxp == Table(f, d, MAXP) head == Table(f, d, HEAD) hhea == Table(f, d, HHEA) hmtx == Table(f, d, HMTX)
        glyphs == U16At(f, maxp, 4)
        metrics == U16At(f, hhea, 34)
        cm == CmapOf(f, d)
        needed == {Scaler(f).v, glyphs.v, metrics.v, hmtx.v, NameOf(f, d).v, cm.v}
                  \cup {U16At(f, head, x).v : x \in {18, 36, 38, 40, 42}} \cup {U16At(f, hhea, x).v : x \in {4, 6}}
    IN [v |-> All(needed), glyphs |-> glyphs.x, metrics |-> metrics.x, hmtx |-> hmtx.x, cmap |-> cm.x]

\* The metrics of glyph g
WidthAt(f, t, g) == IF t.metrics = 0 THEN Err ELSE Read(U16(f, Plus(t.hmtx, 4 * Min(g, t.metrics - 1))))
\* All glyphs that the font says it has: the last one with its own metrics decides
Widths(f, t) == IF t.glyphs = 0 THEN Ok(0) ELSE WidthAt(f, t, t.glyphs - 1)

CmapSound(f, t) == Sorted(f, t.cmap)
=============================================================================
