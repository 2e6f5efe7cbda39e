---------------------------- MODULE RasterTrace ----------------------------
(***************************************************************************)
(* Images rendered by the real code from documents whose pages are known.   *)
(* Pages: [box, turns, rects]                                               *)
(* Traces: [page, sx, sy, white, printing, pw, ph, w, h, px]; pw, ph: the   *)
(* size that was asked for as a number of points, in units of 1/U; px[k] = <<a, r, g, b>>, row by  *)
(* row; a is 255 when the backdrop is white.                                *)
(***************************************************************************)
EXTENDS Raster, TLC, Json
CONSTANTS PageFile, TraceFile
Pages == ndJsonDeserialize(PageFile)
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, y, why, P
vars == <<t, y, why, P>>
T == Traces[t]
Init == t \in DOMAIN Traces /\ y = -1 /\ why = "" /\ P = Seen(Pages[T.page], T.printing)

Backdrop == IF T.white THEN <<255, 255, 255, 255>> ELSE <<0, 0, 0, 0>>
Open(c) == c[1] = -1
Fits(got, want) == Open(want) \/ \A k \in 1..4 : got[k] - want[k] \in {-1, 0, 1}

CheckSize ==
    /\ why = "" /\ y = -1 /\ y' = 0
    /\ why' = IF T.pw # P.w \/ T.ph # P.h
              THEN "the page is said to be " \o ToString(<<T.pw, T.ph>>) \o " and is " \o ToString(<<P.w, P.h>>)
              ELSE IF T.w \in Sizes(P.w, T.sx) /\ T.h \in Sizes(P.h, T.sy) THEN ""
              ELSE "the image should be " \o ToString(Pixels(P.w, T.sx)) \o " by " \o ToString(Pixels(P.h, T.sy)) \o " pixels"
CheckRow ==
    /\ why = "" /\ y >= 0 /\ y < T.h /\ y' = y + 1
    /\ LET bad == {x \in 0..(T.w - 1) : ~Fits(T.px[y * T.w + x + 1], Shown(P, x, y, T.sx, T.sy, Backdrop))} IN
       why' = IF bad = {} THEN ""
              ELSE LET x == CHOOSE x \in bad : TRUE IN
                   "pixel " \o ToString(<<x, y>>) \o " is " \o ToString(T.px[y * T.w + x + 1]) \o " instead of "
                       \o ToString(Shown(P, x, y, T.sx, T.sy, Backdrop))
Next == (CheckSize \/ CheckRow) /\ UNCHANGED <<t, P>>
Done == (why # "" \/ y = T.h) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars
Conforms == why = ""
=============================================================================
