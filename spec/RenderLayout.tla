----------------------------- MODULE RenderLayout ---------------------------
(***************************************************************************)
(* Layout (C11 to C15): sizes and positions of the boxes, relative to the   *)
(* content box of their parent box.                                         *)
(*                                                                          *)
(* A fragment is [k, e, x, y, w, h, pad, bor, mar, ch, s, amb]: k is "box", *)
(* "anon" or "text"; x, y, w, h the content box; pad, bor, mar its edges    *)
(* [t, r, b, l]; ch its children; s the characters of a text; amb whether   *)
(* a line break was too close a decision for integer arithmetic.            *)
(***************************************************************************)
EXTENDS RenderBoxes

Edges(tt, r, b, l) == [t |-> tt, r |-> r, b |-> b, l |-> l]
NoEdges == Edges(0, 0, 0, 0)
Frag(k, e, x, y, w, h, pad, bor, mar, ch) ==
  [k |-> k, e |-> e, x |-> x, y |-> y, w |-> w, h |-> h, pad |-> pad, bor |-> bor, mar |-> mar,
   ch |-> ch, s |-> <<>>, amb |-> FALSE]

\* The used value of a property against a reference length (AUTO: auto)
Used(e, p, ref) ==
  LET v == style[e][p]
  IN IF v.k = "auto" THEN AUTO ELSE IF v.k = "pct" THEN (IF ref = AUTO THEN AUTO ELSE Mul(ref, v.n)) ELSE v.n
UsedEdges(e, names, ref) ==
  Edges(Used(e, names[1], ref), Used(e, names[2], ref), Used(e, names[3], ref), Used(e, names[4], ref))
Zero(x) == IF x = AUTO THEN 0 ELSE x
ZeroEdges(m) == Edges(Zero(m.t), Zero(m.r), Zero(m.b), Zero(m.l))
FontSize(e) == style[e]["font-size"].n

\* Relative positioning (C13)
RelX(e, w) ==
  IF Position(e) # "relative" THEN 0
  ELSE LET a == Used(e, "left", w) b == Used(e, "right", w)
       IN IF a # AUTO THEN a ELSE IF b # AUTO THEN -b ELSE 0
\* A percentage of a height that is not specified is 0
RelY(e, h) ==
  IF Position(e) # "relative" THEN 0
  ELSE LET a == Used(e, "top", Zero(h)) b == Used(e, "bottom", Zero(h))
       IN IF a # AUTO THEN a ELSE IF b # AUTO THEN -b ELSE 0

-----------------------------------------------------------------------------
(* Collapsing margins (C12): the largest positive and the most negative one *)

CM(m) == [p |-> Max(m, 0), n |-> Min(m, 0)]
NoMargin == [p |-> 0, n |-> 0]
Adjoin(a, b) == [p |-> Max(a.p, b.p), n |-> Min(a.n, b.n)]
Solve(a) == a.p + a.n

-----------------------------------------------------------------------------
(* Inline layout (C15) *)

CharAdvance(c) == IF c < Len(Font.adv) THEN Font.adv[c + 1] ELSE Font.adv[1]
RECURSIVE AdvanceSum(_, _, _)
AdvanceSum(s, i, j) == IF i > j THEN 0 ELSE CharAdvance(s[i]) + AdvanceSum(s, i + 1, j)
TextWidth(sum, fs) == MulEm(sum, fs)
LineHeight(fs) == (fs * 6) \div 5

\* Where the segment of s that starts at i ends, on a line with room for avail:
\* [to: its last character, next: where the rest starts, sum: its advance, amb]
\* sum: advance of i..j-1; sp: the last space in i..j-1 (0: none), spsum: the advance before it
\* Whether the real code decides by rounded numbers (here: with integers that are cut off)
Close(a, b) == Abs(a - b) <= 24 /\ ~("exact" \in DOMAIN Doc /\ Doc.exact)
RECURSIVE Scan(_, _, _, _, _, _, _, _, _)
Scan(s, i, j, sum, sp, spsum, avail, fs, amb) ==
  LET atEnd == j > Len(s)
      w == TextWidth(sum, fs)
      stop == atEnd \/ s[j] = 32
      close == amb \/ (stop /\ Close(w, avail))
  IN IF stop /\ w > avail
     THEN IF sp # 0 THEN [to |-> sp - 1, next |-> sp + 1, sum |-> spsum, amb |-> close]
          ELSE [to |-> j - 1, next |-> j + 1, sum |-> sum, amb |-> close]
     ELSE IF atEnd THEN [to |-> j - 1, next |-> j, sum |-> sum, amb |-> close]
     ELSE IF s[j] = 32 THEN Scan(s, i, j + 1, sum + CharAdvance(32), j, sum, avail, fs, close)
     ELSE Scan(s, i, j + 1, sum + CharAdvance(s[j]), sp, spsum, avail, fs, close)

\* State of a line layout: pos, the current nesting level [start, frags, h], the open inline boxes
\* [e, x, y, rel, pad, bor, mar, edge, level: of the parent] innermost last, lines, top of the
\* current line, abspos boxes met.
Level(start) == [start |-> start, frags |-> <<>>, h |-> 0]
AddTo(level, f, h) == [level EXCEPT !.frags = Append(@, f), !.h = Max(@, h)]

\* End of (a line's part of) the inline box p whose contents are in level
InlineFragment(p, level, pos, edge) ==
  LET pad == IF edge THEN p.pad ELSE [p.pad EXCEPT !.r = 0]
      bor == IF edge THEN p.bor ELSE [p.bor EXCEPT !.r = 0]
      mar == IF edge THEN p.mar ELSE [p.mar EXCEPT !.r = 0]
  IN Frag("box", p.e, p.x, p.y, pos - level.start, level.h, pad, bor, mar, level.frags)
OuterHeight(f) == f.h + f.pad.t + f.pad.b + f.bor.t + f.bor.b + f.mar.t + f.mar.b

OpenInline(st, e, edge, cb) ==
  LET left(x) == IF edge THEN x ELSE [x EXCEPT !.l = 0]
      pad == left(UsedEdges(e, PaddingP, cb.w))
      bor == left(UsedEdges(e, BorderW, cb.w))
      mar == left(ZeroEdges(UsedEdges(e, MarginP, cb.w)))
      pos == st.pos + pad.l + bor.l + mar.l
      rel == RelX(e, cb.w)
  IN [st EXCEPT !.pos = pos,
        !.stack = Append(@, [e |-> e, x |-> pos - st.level.start + rel,
                             y |-> pad.t + bor.t + mar.t + RelY(e, cb.h), rel |-> rel,
                             pad |-> pad, bor |-> bor, mar |-> mar, level |-> st.level]),
        !.level = Level(pos)]

CloseInline(st, edge) ==
  LET p == Last(st.stack)
      f == InlineFragment(p, st.level, st.pos, edge)
  IN [st EXCEPT !.pos = IF edge THEN @ + f.pad.r + f.bor.r + f.mar.r ELSE @,
                !.stack = Front(@),
                !.level = AddTo(p.level, f, OuterHeight(f))]

Line(level, y, cb) == Frag("anon", 0, 0, y, cb.w, level.h, NoEdges, NoEdges, NoEdges, level.frags)

\* Break the line inside of every open inline box: those go on, without left edge, on the next line.
\* Returns [stack, level]: the boxes as they continue, innermost first, and the level of the line.
RECURSIVE BreakAll(_, _, _)
BreakAll(stack, level, pos) ==
  IF stack = <<>> THEN [stack |-> <<>>, level |-> level]
  ELSE LET p == Last(stack)
           f == InlineFragment(p, level, pos, FALSE)
           outer == BreakAll(Front(stack), AddTo(p.level, f, OuterHeight(f)), pos)
           cont == [p EXCEPT !.x = p.rel, !.pad.l = 0, !.bor.l = 0, !.mar.l = 0, !.level = Level(0)]
       IN [stack |-> Append(outer.stack, cont), level |-> outer.level]
BreakLine(st, cb) ==
  LET b == BreakAll(st.stack, st.level, st.pos)
  IN [st EXCEPT !.pos = 0, !.stack = b.stack, !.level = Level(0),
                !.lines = Append(@, Line(b.level, st.y, cb)), !.y = @ + b.level.h]

RECURSIVE PutText(_, _, _, _, _)
PutText(st, e, s, i, cb) ==
  LET fs == FontSize(e)
      seg == Scan(s, i, i, 0, 0, 0, cb.w - st.pos, fs, FALSE)
      w == TextWidth(seg.sum, fs)
      h == LineHeight(fs)
      f == [Frag("text", e, st.pos - st.level.start, 0, w, h, NoEdges, NoEdges, NoEdges, <<>>)
              EXCEPT !.s = SubSeq(s, i, seg.to), !.amb = seg.amb]
      st2 == [st EXCEPT !.pos = @ + w, !.level = AddTo(@, f, h)]
  IN IF seg.next > Len(s) THEN st2 ELSE PutText(BreakLine(st2, cb), e, s, seg.next, cb)

RECURSIVE PutTokens(_, _, _)
PutTokens(st, toks, cb) ==
  IF toks = <<>> THEN st
  ELSE LET k == Head(toks)
       IN PutTokens(CASE k.k = "open" -> OpenInline(st, k.e, k.edge, cb)
                      [] k.k = "close" -> CloseInline(st, k.edge)
                      [] k.k = "text" -> PutText(st, k.e, k.s, 1, cb)
                      [] k.k = "float" -> st
                      [] k.k = "abs" ->
                           \* static position: where the box would have been on the line if inline
                           [st EXCEPT !.abs = Append(@, [e |-> k.e, y |-> st.y,
                              x |-> IF style[k.e]["specified"].k = "inline" THEN st.pos ELSE 0])],
                    Tail(toks), cb)

\* Result of the layout of the contents of a block container:
\* [frags, h, start, end: margins of the contents, through: the contents are empty, abs]
LayoutInline(toks, cb) ==
  LET st == PutTokens([pos |-> 0, level |-> Level(0), stack |-> <<>>, lines |-> <<>>, y |-> 0, abs |-> <<>>], toks, cb)
  IN [frags |-> Append(st.lines, Line(st.level, st.y, cb)), h |-> st.y + st.level.h,
      start |-> NoMargin, end |-> NoMargin, through |-> FALSE, abs |-> st.abs]

-----------------------------------------------------------------------------
(* Absolutely positioned boxes (C14) and block layout (C11, C12) *)

\* One axis of an absolutely positioned box: margins, and its size unless auto (AUTO) with an
\* auto offset.  inline: an over-constrained box with auto margins does not go past the start.
SolveAxis(size, pb, start, end, spec, ms, me, inline) ==
  IF start = AUTO \/ end = AUTO
  THEN [size |-> spec, ms |-> Zero(ms), me |-> Zero(me)]
  ELSE IF spec = AUTO
  THEN [size |-> size - start - end - pb - Zero(ms) - Zero(me), ms |-> Zero(ms), me |-> Zero(me)]
  ELSE LET left == size - start - end - pb - spec
       IN CASE ms = AUTO /\ me = AUTO -> IF inline /\ left < 0
                                         THEN [size |-> spec, ms |-> 0, me |-> left]
                                         ELSE [size |-> spec, ms |-> left \div 2, me |-> left - left \div 2]
            [] ms = AUTO /\ me # AUTO -> [size |-> spec, ms |-> left - me, me |-> me]
            [] ms # AUTO /\ me = AUTO -> [size |-> spec, ms |-> ms, me |-> left - ms]
            [] OTHER -> [size |-> spec, ms |-> ms, me |-> me]

Shift(abs, dx, dy) == [i \in DOMAIN abs |-> [abs[i] EXCEPT !.x = @ + dx, !.y = @ + dy]]

RECURSIVE LayoutContents(_, _, _)
RECURSIVE LayoutList(_, _, _, _)
RECURSIVE LayoutBlock(_, _)
RECURSIVE LayoutAbs(_, _)
RECURSIVE LayoutAllAbs(_, _)

\* joins: whether the margins at the start join those of the container
LayoutContents(c, cb, joins) ==
  IF c.k = "ifc" THEN LayoutInline(c.toks, cb)
  ELSE LET r == LayoutList(c.list, cb,
                  [frags |-> <<>>, abs |-> <<>>, y |-> 0, joins |-> joins, start |-> NoMargin, cur |-> NoMargin], 1)
       IN [frags |-> r.frags, h |-> r.y, start |-> r.start, end |-> r.cur, through |-> r.joins, abs |-> r.abs]

\* st: position of the next box without the pending margin cur; joins: everything so far is
\* empty and its margins, start, join the one of the container
LayoutList(items, cb, st, i) ==
  IF i > Len(items) THEN st
  ELSE LET it == items[i]
       IN IF it.k = "abs"
          THEN LayoutList(items, cb, [st EXCEPT !.abs = Append(@, [e |-> it.e, x |-> 0, y |-> st.y])], i + 1)
          ELSE IF it.k = "float" THEN LayoutList(items, cb, st, i + 1)
          ELSE LET r == IF it.k = "anon"
                        THEN LET c == LayoutInline(it.toks, [w |-> cb.w, h |-> AUTO])
                             IN [frag |-> Frag("anon", 0, 0, 0, cb.w, c.h, NoEdges, NoEdges, NoEdges, c.frags),
                                 abs |-> c.abs, start |-> NoMargin, end |-> NoMargin, through |-> FALSE]
                        ELSE LayoutBlock(it.e, cb)
                   f == r.frag
                   size == f.h + f.pad.t + f.pad.b + f.bor.t + f.bor.b
                   m == Adjoin(st.cur, r.start)
                   y == IF st.joins THEN st.y ELSE st.y + Solve(m)
                   placed == [f EXCEPT !.y = @ + (IF st.joins /\ r.through THEN 0 ELSE y)]
                   st2 == [st EXCEPT !.frags = Append(@, placed),
                                     !.abs = @ \o Shift(r.abs, placed.x, placed.y)]
                   joined == Adjoin(st.start, r.start)
               IN LayoutList(items, cb,
                    CASE st.joins /\ r.through -> [st2 EXCEPT !.start = Adjoin(joined, r.end)]
                      [] st.joins /\ ~r.through -> [st2 EXCEPT !.start = joined, !.joins = FALSE,
                                                              !.y = @ + size, !.cur = r.end]
                      [] ~st.joins /\ r.through -> [st2 EXCEPT !.cur = Adjoin(m, r.end)]
                      [] OTHER -> [st2 EXCEPT !.y = @ + Solve(m) + size, !.cur = r.end],
                    i + 1)

\* Width and horizontal margins of a block in normal flow
BlockWidth(e, cb, pbw) ==
  LET w == Used(e, "width", cb.w)
      l == Used(e, "margin-left", cb.w)
      r == Used(e, "margin-right", cb.w)
      left == cb.w - pbw - w
  IN IF w = AUTO THEN [w |-> cb.w - pbw - Zero(l) - Zero(r), l |-> Zero(l), r |-> Zero(r)]
     ELSE IF l = AUTO /\ r = AUTO /\ left > 0 THEN [w |-> w, l |-> left \div 2, r |-> left - left \div 2]
     ELSE IF l = AUTO /\ r # AUTO /\ left - r > 0 THEN [w |-> w, l |-> left - r, r |-> r]
     ELSE [w |-> w, l |-> Zero(l), r |-> left - Zero(l)]

LayoutBlock(e, cb) ==
  LET pad == UsedEdges(e, PaddingP, cb.w)
      bor == UsedEdges(e, BorderW, cb.w)
      mt == Zero(Used(e, "margin-top", cb.w))
      mb == Zero(Used(e, "margin-bottom", cb.w))
      h == BlockWidth(e, cb, pad.l + pad.r + bor.l + bor.r)
      height == Used(e, "height", cb.h)
      same == Display(e) = "block" /\ e # Root
      startJoins == same /\ pad.t + bor.t = 0
      endJoins == same /\ pad.b + bor.b = 0 /\ height = AUTO
      c == LayoutContents(boxes[e], [w |-> h.w, h |-> height], startJoins)
      \* an independent formatting context keeps all margins of its contents inside
      start == IF ~startJoins THEN CM(mt)
               ELSE IF c.through THEN Adjoin(Adjoin(CM(mt), c.start), c.end)
               ELSE Adjoin(CM(mt), c.start)
      rest == IF startJoins /\ c.through THEN NoMargin ELSE c.end
      end == IF endJoins THEN Adjoin(CM(mb), rest) ELSE CM(mb)
      content == IF endJoins THEN c.h ELSE c.h + Solve(rest)
      x == pad.l + bor.l + h.l + RelX(e, cb.w)
      y == pad.t + bor.t + RelY(e, cb.h)
      ch == IF height = AUTO THEN content ELSE height
      positioned == Position(e) = "relative"
      padBox == [w |-> h.w + pad.l + pad.r, h |-> ch + pad.t + pad.b]
      absFrags == IF positioned /\ c.abs # <<>>
                  THEN <<Frag("anon", 0, -pad.l, -pad.t, padBox.w, padBox.h, NoEdges, NoEdges, NoEdges,
                              LayoutAllAbs(Shift(c.abs, pad.l, pad.t), padBox))>>
                  ELSE <<>>
  IN [frag |-> Frag("box", e, x, y, h.w, ch, pad, bor, Edges(mt, h.r, mb, h.l), c.frags \o absFrags),
      abs |-> IF positioned THEN <<>> ELSE c.abs,
      start |-> start, end |-> end, through |-> startJoins /\ endJoins /\ c.through]

LayoutAllAbs(abs, cb) ==
  IF abs = <<>> THEN <<>> ELSE <<LayoutAbs(Head(abs), cb)>> \o LayoutAllAbs(Tail(abs), cb)

LayoutAbs(a, cb) ==
  LET e == a.e
      pad == UsedEdges(e, PaddingP, cb.w)
      bor == UsedEdges(e, BorderW, cb.w)
      mar == UsedEdges(e, MarginP, cb.w)
      left == Used(e, "left", cb.w) right == Used(e, "right", cb.w)
      top == Used(e, "top", cb.h) bottom == Used(e, "bottom", cb.h)
      pbw == pad.l + pad.r + bor.l + bor.r
      pbh == pad.t + pad.b + bor.t + bor.b
      hx == SolveAxis(cb.w, pbw, left, right, Used(e, "width", cb.w), mar.l, mar.r, TRUE)
      vy == SolveAxis(cb.h, pbh, top, bottom, Used(e, "height", cb.h), mar.t, mar.b, FALSE)
      static == left = AUTO /\ right = AUTO
      anchor == IF static THEN a.x ELSE IF left # AUTO THEN left ELSE right
      w == IF hx.size # AUTO THEN hx.size ELSE cb.w - anchor - pbw - hx.ms - hx.me
      c == LayoutContents(boxes[e], [w |-> w, h |-> vy.size], FALSE)
      h == IF vy.size # AUTO THEN vy.size ELSE c.h + Solve(c.end)
      x == IF left # AUTO THEN left + pad.l + bor.l + hx.ms
           ELSE IF static THEN a.x + pad.l + bor.l + hx.ms
           ELSE cb.w - right - pad.r - bor.r - hx.me - w
      y == IF top # AUTO THEN top + pad.t + bor.t + vy.ms
           ELSE IF bottom = AUTO THEN a.y + pad.t + bor.t + vy.ms
           ELSE cb.h - bottom - pad.b - bor.b - vy.me - h
      padBox == [w |-> w + pad.l + pad.r, h |-> h + pad.t + pad.b]
      absFrags == IF c.abs = <<>> THEN <<>>
                  ELSE <<Frag("anon", 0, -pad.l, -pad.t, padBox.w, padBox.h, NoEdges, NoEdges, NoEdges,
                              LayoutAllAbs(Shift(c.abs, pad.l, pad.t), padBox))>>
  IN Frag("box", e, x, y, w, h, pad, bor, Edges(vy.ms, hx.me, vy.me, hx.ms), c.frags \o absFrags)

\* The root element on the page
LayoutPage ==
  IF ~RootRenders THEN <<>>
  ELSE LET page == [w |-> PageW, h |-> PageH]
           c == [k |-> "blocks", toks |-> <<>>,
                 list |-> <<Item(IF Position(Root) = "absolute" THEN "abs" ELSE "block", Root, <<>>)>>]
           r == LayoutContents(c, page, FALSE)
       IN r.frags \o LayoutAllAbs(r.abs, page)

Layout ==
  /\ phase = "boxes" /\ queue = <<>>
  /\ phase' = "layout"
  /\ frags' = LayoutPage
  /\ UNCHANGED <<t, style, boxes, queue, list, verdict>>
=============================================================================
