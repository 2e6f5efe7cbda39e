----------------------------- MODULE FontTrace -----------------------------
(***************************************************************************)
(* What the real code made of fonts: one step per font.  An observation is   *)
(*   [base, n, ov]  the file                                                *)
(*   chars          the characters it was asked to shape, one by one          *)
(*   got            glyph by character, -1 for an error                       *)
(*   parsed, shown  whether parsing and embedding gave a value                *)
(*   uni            the reverse map of the PDF: runs <<first, last, glyph>>    *)
(*   read           whether the PDF was read (not if it is very large)        *)
(***************************************************************************)
EXTENDS FontFile, TLC, Json
CONSTANTS BaseFile, TraceFile,
          MaxEntries   \* maps with more characters: only the lookups are compared
Bases == ndJsonDeserialize(BaseFile)
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, why
vars == <<t, why>>

File(o) == [b |-> Bases[o.base].b, n |-> o.n, ov |-> o.ov]

Chars(f, font) == {e \in Entries(f, font.cmap) : IsChar(e[1])}
UniPairs(o) == UNION {{<<c, o.uni[k][3] + c - o.uni[k][1]>> : c \in o.uni[k][1]..o.uni[k][2]} : k \in DOMAIN o.uni}
UniCount(o) == LET RECURSIVE s(_) s(k) == IF k = 0 THEN 0 ELSE s(k - 1) + o.uni[k][2] - o.uni[k][1] + 1 IN s(Len(o.uni))

Size(f, font) == LET RECURSIVE s(_)
                     s(k) == IF k = 0 THEN 0 ELSE s(k - 1) + Max(0, Min(1114111, End(f, font.cmap, k)) - Start(f, font.cmap, k) + 1)
                 IN s(font.cmap.n)
GlyphWrong(f, font, o, k) ==
    LET g == Lookup(f, font.cmap, o.chars[k])
        w == IF g.v = "ok" THEN WidthAt(f, font, g.x) ELSE g
        v == All({g.v, w.v})
    IN \/ v = "ok" /\ o.got[k] # g.x /\ (o.got[k] = Out \/ o.read)   \* seen in the PDF only
       \/ v = "err" /\ o.got[k] # Out

\* What is wrong with an observation, if anything
Judge(o) ==
    LET f == File(o) font == Font(f) IN
    IF font.v = "any" THEN ""
    ELSE IF font.v = "err" THEN IF o.parsed /\ o.shown THEN "a font that lacks what is needed was used without an error" ELSE ""
    ELSE IF ~o.parsed THEN "a valid font was refused"
    ELSE IF ~Within(f, font.cmap)
    THEN IF o.shown THEN "embedded although the character map is not all there" ELSE ""
    ELSE IF ~CmapSound(f, font)
    THEN IF Widths(f, font).v = "err" /\ o.shown THEN "embedded although metrics are missing" ELSE ""
    ELSE LET bad == {k \in DOMAIN o.chars : GlyphWrong(f, font, o, k)}
         IN IF bad # {} THEN "glyph of character " \o ToString(o.chars[CHOOSE k \in bad : TRUE])
            ELSE IF Size(f, font) > MaxEntries THEN ""
            ELSE LET es == Chars(f, font)
                     v == All({e[2].v : e \in Entries(f, font.cmap)} \cup {Widths(f, font).v})
                 IN IF v = "err" THEN IF o.shown THEN "embedded although something needed is missing" ELSE ""
                    ELSE IF v = "any" THEN ""
                    ELSE IF ~o.shown THEN "a valid font could not be embedded"
                    ELSE IF ~o.read THEN ""
                    ELSE LET want == {<<e[1], e[2].x>> : e \in {e \in es : e[2].x # 0}}
                         IN IF UniPairs(o) # want THEN "the reverse map"
                            ELSE IF UniCount(o) # Cardinality(want) THEN "repeated characters in the reverse map" ELSE ""

Init == t \in DOMAIN Traces /\ why = "?"
Next == /\ why = "?" /\ t' = t /\ why' = Judge(Traces[t])
        /\ PrintT("@@" \o Font(File(Traces[t])).v)
Over == why # "?" /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Over]_vars
Conforms == why \in {"", "?"}
=============================================================================
