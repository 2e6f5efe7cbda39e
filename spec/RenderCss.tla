------------------------------ MODULE RenderCss -----------------------------
(***************************************************************************)
(* Selectors, declarations, the cascade and computed values (C03 to C07).   *)
(***************************************************************************)
EXTENDS RenderBase

-----------------------------------------------------------------------------
(* Declarations.  A token is [t, s, n, a]: "ident" s, "dim" n s, "pct" n,   *)
(* "num" n, "color" n (packed red, green, blue) a, or "other".              *)
(* A value is [k, n, a].                                                    *)

V(k, n) == [k |-> k, n |-> n, a |-> 0]
BAD == V("BAD", 0)

Sides4 == <<"top", "right", "bottom", "left">>
SideProps(pre, post) == [i \in 1..4 |-> pre \o "-" \o Sides4[i] \o post]
MarginP == SideProps("margin", "")
PaddingP == SideProps("padding", "")
BorderW == SideProps("border", "-width")
BorderS == SideProps("border", "-style")
BorderC == SideProps("border", "-color")
SetOf(s) == {s[i] : i \in DOMAIN s}
OffsetP == {"top", "right", "bottom", "left"}

AutoProps == OffsetP \cup {"width", "height"} \cup SetOf(MarginP)
PadProps == SetOf(PaddingP)
WidthProps == SetOf(BorderW)
StyleProps == SetOf(BorderS)
ColorProps == SetOf(BorderC) \cup {"background-color", "color"}
Longhands == AutoProps \cup PadProps \cup WidthProps \cup StyleProps \cup ColorProps
               \cup {"font-size", "position", "float", "display"}
Inherited == {"font-size", "color"}

Keywords(p) ==
  CASE p = "position" -> {"static", "relative", "absolute"}
    [] p = "float" -> {"none", "left", "right"}
    [] p = "display" -> {"none", "contents", "block", "flow-root", "inline"}
    [] p \in StyleProps -> {"none", "solid"}
    [] OTHER -> {}
Wide == {"inherit", "initial", "unset"}

LengthOf(tok) ==
  IF tok.t = "dim" /\ tok.s = "px" THEN V("len", (tok.n \div 1000) * PX + ((tok.n % 1000) * PX) \div 1000)
  ELSE IF tok.t = "dim" /\ tok.s = "wholepx" THEN V("len", tok.n * PX)   \* too large in thousandths
  ELSE IF tok.t = "dim" /\ tok.s = "em" THEN V("em", tok.n)
  ELSE IF tok.t = "num" /\ tok.n = 0 THEN V("len", 0)
  ELSE BAD
PercentOf(tok) == IF tok.t = "pct" THEN V("pct", tok.n \div 100) ELSE LengthOf(tok)
ColorOf(tok) ==
  IF tok.t = "color" THEN [k |-> "rgba", n |-> tok.n, a |-> tok.a]
  ELSE IF tok.t = "ident" /\ tok.s = "currentcolor" THEN V("cur", 0)
  ELSE BAD
WidthOf(tok) ==
  IF tok.t = "ident"
  THEN CASE tok.s = "thin" -> V("len", 1 * PX) [] tok.s = "medium" -> V("len", 3 * PX)
         [] tok.s = "thick" -> V("len", 5 * PX) [] OTHER -> BAD
  ELSE PercentOf(tok)

\* The value of one token for a longhand
ValueOf(p, tok) ==
  IF p \in AutoProps
  THEN (IF tok.t = "ident" /\ tok.s = "auto" THEN V("auto", 0) ELSE PercentOf(tok))
  ELSE IF p \in PadProps THEN PercentOf(tok)
  ELSE IF p \in WidthProps THEN WidthOf(tok)
  ELSE IF p \in ColorProps THEN ColorOf(tok)
  ELSE IF p = "font-size" THEN LengthOf(tok)
  ELSE IF tok.t = "ident" /\ tok.s \in Keywords(p) THEN V(tok.s, 0)
  ELSE BAD

One(p, v) == [p |-> p, v |-> v]

\* margin, padding, border-width, border-style, border-color: top right bottom left.
\* doc.swap is the known deviation: the second of four values on the left, the fourth on the right.
FourSides(props, toks) ==
  LET n == Len(toks)
      vals == [i \in 1..4 |-> IF i <= n THEN ValueOf(props[i], toks[i]) ELSE BAD]
      pick(side) == CASE side = 1 -> 1
                      [] side = 2 -> IF n = 1 THEN 1 ELSE IF n = 4 /\ Doc.swap THEN 4 ELSE 2
                      [] side = 3 -> IF n <= 2 THEN 1 ELSE 3
                      [] side = 4 -> IF n = 1 THEN 1 ELSE IF n = 4 /\ ~Doc.swap THEN 4 ELSE 2
  IN IF n < 1 \/ n > 4 \/ (\E i \in 1..n : vals[i].k = "BAD") THEN <<>>
     ELSE [i \in 1..4 |-> One(props[i], vals[pick(i)])]

\* border-top: style, color and width, each at most once, in any order; the others are reset
BorderTop(toks) ==
  LET kind(tok) == IF ValueOf("border-top-style", tok).k # "BAD" THEN "border-top-style"
                   ELSE IF ColorOf(tok).k # "BAD" THEN "border-top-color"
                   ELSE IF WidthOf(tok).k # "BAD" THEN "border-top-width"
                   ELSE "BAD"
      props == <<"border-top-style", "border-top-color", "border-top-width">>
      at(p) == {i \in DOMAIN toks : kind(toks[i]) = p}
  IN IF \/ Len(toks) = 0
        \/ \E i \in DOMAIN toks : kind(toks[i]) = "BAD"
        \/ \E i \in 1..3 : Cardinality(at(props[i])) > 1
     THEN <<>>
     ELSE [i \in 1..3 |-> One(props[i],
             IF at(props[i]) = {} THEN V("initial", 0)
             ELSE ValueOf(props[i], toks[CHOOSE j \in at(props[i]) : TRUE]))]

ShorthandOf(p) ==
  CASE p = "margin" -> MarginP [] p = "padding" -> PaddingP [] p = "border-width" -> BorderW
    [] p = "border-style" -> BorderS [] p = "border-color" -> BorderC
    [] p = "border-top" -> <<"border-top-style", "border-top-color", "border-top-width">>
    [] p = "background" -> <<"background-color">>
    [] OTHER -> <<>>

\* The longhand declarations a declaration stands for; none if it is invalid
Expand(d) ==
  LET toks == d.v
      wide == Len(toks) >= 1 /\ toks[1].t = "ident" /\ toks[1].s \in Wide
      sh == ShorthandOf(d.p)
      names == IF sh # <<>> THEN sh ELSE IF d.p \in Longhands THEN <<d.p>> ELSE <<>>
  IN IF names = <<>> \/ toks = <<>> THEN <<>>
     ELSE IF wide
     THEN IF Len(toks) # 1 THEN <<>> ELSE [i \in DOMAIN names |-> One(names[i], V(toks[1].s, 0))]
     ELSE IF d.p = "border-top" THEN BorderTop(toks)
     ELSE IF d.p = "background"
     THEN IF Len(toks) = 1 /\ ColorOf(toks[1]).k # "BAD"
          THEN <<One("background-color", ColorOf(toks[1]))>> ELSE <<>>
     ELSE IF sh # <<>> THEN FourSides(sh, toks)
     ELSE IF Len(toks) = 1 /\ ValueOf(d.p, toks[1]).k # "BAD"
     THEN <<One(d.p, ValueOf(d.p, toks[1]))>> ELSE <<>>

RECURSIVE ExpandAll(_, _)
ExpandAll(ds, imp) ==
  IF ds = <<>> THEN <<>>
  ELSE (IF Head(ds).imp = imp THEN Expand(Head(ds)) ELSE <<>>) \o ExpandAll(Tail(ds), imp)

-----------------------------------------------------------------------------
(* Selectors.  A selector is a sequence of compounds, the subject first;    *)
(* compound i > 1 has the combinator that relates it to compound i - 1.     *)

Parent(e) == Nodes[e].p
Siblings(e) == IF Parent(e) = 0 THEN <<e>>
               ELSE SelectSeq(Nodes[Parent(e)].ch, LAMBDA x : Elem(x))
Index(e) == LET s == Siblings(e) IN CHOOSE i \in DOMAIN s : s[i] = e
OfType(e) == SelectSeq(Siblings(e), LAMBDA x : Nodes[x].tag = Nodes[e].tag /\ Nodes[x].html = Nodes[e].html)
TypeIndex(e) == LET s == OfType(e) IN CHOOSE i \in DOMAIN s : s[i] = e
RECURSIVE Ancestors(_)
Ancestors(e) == IF Parent(e) = 0 THEN {} ELSE {Parent(e)} \cup Ancestors(Parent(e))

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Fold(s, ci) == IF ci THEN [i \in DOMAIN s |-> Lower(s[i])] ELSE s
StartsWith(s, v) == Len(v) <= Len(s) /\ SubSeq(s, 1, Len(v)) = v
EndsWith(s, v) == Len(v) <= Len(s) /\ SubSeq(s, Len(s) - Len(v) + 1, Len(s)) = v
Contains(s, v) == \E i \in 1..(Len(s) - Len(v) + 1) : SubSeq(s, i, i + Len(v) - 1) = v
IsWs(c) == c \in {32, 9, 10, 12, 13}
HasWord(s, v) ==
  /\ v # <<>> /\ \A i \in DOMAIN v : ~IsWs(v[i])
  /\ \E i \in 1..(Len(s) - Len(v) + 1) :
       /\ SubSeq(s, i, i + Len(v) - 1) = v
       /\ i = 1 \/ IsWs(s[i - 1])
       /\ i + Len(v) - 1 = Len(s) \/ IsWs(s[i + Len(v)])

AttrMatches(op, value, v, ci) ==
  LET s == Fold(value, ci) w == Fold(v, ci)
  IN CASE op = "has" -> TRUE
       [] op = "=" -> s = w
       [] op = "~=" -> HasWord(s, w)
       [] op = "|=" -> s = w \/ StartsWith(s, Append(w, 45))
       [] op = "^=" -> w # <<>> /\ StartsWith(s, w)
       [] op = "$=" -> w # <<>> /\ EndsWith(s, w)
       [] op = "*=" -> w # <<>> /\ Contains(s, w)

\* index = step * n + offset for an integer n >= 0
Nth(index, step, offset) ==
  IF step = 0 THEN index = offset
  ELSE IF step > 0 THEN index >= offset /\ (index - offset) % step = 0
  ELSE index <= offset /\ (offset - index) % (-step) = 0

RECURSIVE MatchesSimple(_, _)
MatchesSimple(e, x) ==
  LET n == Nodes[e] IN
  CASE x.k = "*" -> TRUE
    [] x.k = "type" -> n.tag = (IF n.html THEN x.s ELSE x.o)
    [] x.k = "never" -> FALSE
    [] x.k = "class" -> \E i \in DOMAIN n.cls : n.cls[i] = x.s
    [] x.k = "id" -> n.id # "" /\ n.id = x.s
    [] x.k = "attr" ->
         \E i \in DOMAIN n.attrs :
            /\ n.attrs[i].n = (IF n.html THEN x.s ELSE x.o)
            /\ (n.attrs[i].x => x.n1 = 1)   \* in a namespace: *|name
            /\ AttrMatches(x.op, n.attrs[i].v, x.v, x.ci)
    [] x.k = "root" -> Parent(e) = 0
    [] x.k = "empty" -> \A i \in DOMAIN n.ch : Nodes[n.ch[i]].k = "c" \/ (Nodes[n.ch[i]].k = "t" /\ Nodes[n.ch[i]].txt = <<>>)
    [] x.k = "first-child" -> Index(e) = 1
    [] x.k = "last-child" -> Index(e) = Len(Siblings(e))
    [] x.k = "only-child" -> Len(Siblings(e)) = 1
    [] x.k = "first-of-type" -> TypeIndex(e) = 1
    [] x.k = "last-of-type" -> TypeIndex(e) = Len(OfType(e))
    [] x.k = "only-of-type" -> Len(OfType(e)) = 1
    [] x.k = "nth-child" -> Nth(Index(e), x.n1, x.n2)
    [] x.k = "nth-last-child" -> Nth(Len(Siblings(e)) + 1 - Index(e), x.n1, x.n2)
    [] x.k = "nth-of-type" -> Nth(TypeIndex(e), x.n1, x.n2)
    [] x.k = "nth-last-of-type" -> Nth(Len(OfType(e)) + 1 - TypeIndex(e), x.n1, x.n2)
    [] x.k = "not" -> \E i \in DOMAIN x.sub : ~MatchesSimple(e, x.sub[i])

Candidates(e, comb) ==
  LET s == Siblings(e) i == Index(e) IN
  CASE comb = " " -> Ancestors(e)
    [] comb = ">" -> IF Parent(e) = 0 THEN {} ELSE {Parent(e)}
    [] comb = "+" -> IF i = 1 THEN {} ELSE {s[i - 1]}
    [] comb = "~" -> {s[j] : j \in 1..(i - 1)}

RECURSIVE MatchesFrom(_, _, _)
MatchesFrom(e, sel, i) ==
  /\ \A j \in DOMAIN sel[i].simple : MatchesSimple(e, sel[i].simple[j])
  /\ i = Len(sel) \/ \E c \in Candidates(e, sel[i + 1].comb) : MatchesFrom(c, sel, i + 1)
Matches(e, sel) == MatchesFrom(e, sel, 1)

SimpleSpec(x) ==
  CASE x.k = "*" -> 0 [] x.k \in {"type", "never"} -> 1 [] x.k = "id" -> 1000000
    [] x.k = "not" ->
         LET y == x.sub[1]
         IN CASE y.k = "*" -> 0 [] y.k \in {"type", "never"} -> 1 [] y.k = "id" -> 1000000 [] OTHER -> 1000
    [] OTHER -> 1000
RECURSIVE SumSpec(_)
SumSpec(simple) == IF simple = <<>> THEN 0 ELSE SimpleSpec(Head(simple)) + SumSpec(Tail(simple))
RECURSIVE Specificity(_)
Specificity(sel) == IF sel = <<>> THEN 0 ELSE SumSpec(Head(sel).simple) + Specificity(Tail(sel))

-----------------------------------------------------------------------------
(* The user-agent style sheet *)

Simple(k, s) == [k |-> k, s |-> s, o |-> s, op |-> "", v |-> <<>>, ci |-> FALSE, n1 |-> 0, n2 |-> 0, sub |-> <<>>]
TypeSel(tag) == <<[comb |-> "", simple |-> <<Simple("type", tag)>>]>>
AttrSel(tag, name, op, v, ci) ==
  LET a == [Simple("attr", name) EXCEPT !.op = op, !.v = v, !.ci = ci]
  IN <<[comb |-> "", simple |-> IF tag = "" THEN <<a>> ELSE <<Simple("type", tag), a>>]>>
Tok(t_, s, n) == [t |-> t_, s |-> s, n |-> n, a |-> 0]
Decl(p, toks, imp) == [p |-> p, v |-> toks, imp |-> imp]
Ident(p, s) == Decl(p, <<Tok("ident", s, 0)>>, FALSE)
HiddenTags == <<"area", "base", "basefont", "datalist", "head", "link", "meta", "noembed", "noframes", "param",
                "rp", "script", "source", "style", "template", "track", "title">>
BlockTags == <<"address", "blockquote", "center", "dialog", "div", "figure", "figcaption", "footer", "form",
               "header", "hr", "legend", "listing", "main", "p", "plaintext", "pre", "xmp">>
UA == <<
  [sels |-> <<AttrSel("", "hidden", "has", <<>>, FALSE)>> \o [i \in DOMAIN HiddenTags |-> TypeSel(HiddenTags[i])],
   decls |-> <<Ident("display", "none")>>],
  [sels |-> <<AttrSel("embed", "hidden", "has", <<>>, FALSE)>>,
   decls |-> <<Ident("display", "inline"), Decl("height", <<Tok("num", "", 0)>>, FALSE),
               Decl("width", <<Tok("num", "", 0)>>, FALSE)>>],
  [sels |-> <<AttrSel("input", "type", "=", <<104, 105, 100, 100, 101, 110>>, TRUE)>>,
   decls |-> <<Decl("display", <<Tok("ident", "none", 0)>>, TRUE)>>],
  [sels |-> <<TypeSel("html"), TypeSel("body")>>, decls |-> <<Ident("display", "block")>>],
  [sels |-> <<TypeSel("body")>>, decls |-> <<Decl("margin", <<Tok("dim", "px", 8000)>>, FALSE)>>],
  [sels |-> [i \in DOMAIN BlockTags |-> TypeSel(BlockTags[i])], decls |-> <<Ident("display", "block")>>]
>>

-----------------------------------------------------------------------------
(* The cascade *)

\* The rules of a list with the declarations that match e, as [sp, i, decls], in cascade order
RuleHits(e, rules) ==
  {[sp |-> MaxOf({Specificity(rules[i].sels[j]) : j \in {j \in DOMAIN rules[i].sels : Matches(e, rules[i].sels[j])}}),
    i |-> i]
   : i \in {i \in DOMAIN rules : \E j \in DOMAIN rules[i].sels : Matches(e, rules[i].sels[j])}}
Before(x, y) == x.sp < y.sp \/ (x.sp = y.sp /\ x.i < y.i)
Ordered(S) == LET n == Cardinality(S)
                  rank(x) == Cardinality({y \in S : Before(y, x)}) + 1
              IN [i \in 1..n |-> CHOOSE x \in S : rank(x) = i]

RECURSIVE Declared(_, _, _)
Declared(order, rules, imp) ==
  IF order = <<>> THEN <<>>
  ELSE ExpandAll(rules[Head(order).i].decls, imp) \o Declared(Tail(order), rules, imp)

\* All declarations that apply to e, the winner of each property last
CascadeOf(e) ==
  LET ua == Ordered(RuleHits(e, UA))
      author == Ordered(RuleHits(e, Doc.rules))
      attr == Nodes[e].style
  IN Declared(ua, UA, FALSE)
     \o Declared(author, Doc.rules, FALSE) \o ExpandAll(attr, FALSE)
     \o Declared(author, Doc.rules, TRUE) \o ExpandAll(attr, TRUE)
     \o Declared(ua, UA, TRUE)

Initial(p) ==
  CASE p = "font-size" -> V("len", 16 * PX)
    [] p = "color" -> [k |-> "rgba", n |-> 0, a |-> 255]
    [] p \in SetOf(MarginP) -> V("len", 0)
    [] p \in AutoProps -> V("auto", 0)
    [] p \in PadProps -> V("len", 0)
    [] p \in WidthProps -> V("len", 3 * PX)
    [] p \in StyleProps -> V("none", 0)
    [] p = "background-color" -> [k |-> "rgba", n |-> 0, a |-> 0]
    [] p \in ColorProps -> V("cur", 0)
    [] p = "position" -> V("static", 0)
    [] p = "float" -> V("none", 0)
    [] p = "display" -> V("inline", 0)
\* The computed values of the (missing) parent of the root element
InitialStyle == [p \in Longhands |-> Initial(p)]

\* The computed value of p, given the parent's computed values and the own font size
Computed(ds, p, ps, fs) ==
  LET S == {i \in DOMAIN ds : ds[i].p = p}
      v == IF S = {} THEN V("unset", 0) ELSE ds[MaxOf(S)].v
  IN CASE v.k = "unset" -> IF p \in Inherited THEN ps[p] ELSE Initial(p)
       [] v.k = "inherit" -> ps[p]
       [] v.k = "initial" -> Initial(p)
       [] v.k = "em" -> V("len", Mul(IF p = "font-size" THEN ps["font-size"].n ELSE fs, v.n))
       [] v.k = "cur" /\ p = "color" -> ps[p]
       [] OTHER -> v

StyleOf(e) ==
  LET ds == CascadeOf(e)
      ps == IF Parent(e) = 0 THEN InitialStyle ELSE style[Parent(e)]
      fs == Computed(ds, "font-size", ps, 0).n
      c(p) == Computed(ds, p, ps, fs)
      out == c("position").k = "absolute" \/ c("float").k # "none"
  IN [p \in Longhands \cup {"specified"} |->
        IF p = "specified" THEN c("display")
        ELSE IF p = "display" /\ out /\ c("display").k = "inline" THEN V("block", 0)
        ELSE IF p \in WidthProps
        THEN LET i == CHOOSE i \in 1..4 : BorderW[i] = p
             IN IF c(BorderS[i]).k = "none" THEN V("len", 0) ELSE c(p)
        ELSE c(p)]

\* The next element in tree order gets its computed values
StyleElement ==
  /\ phase = "style"
  /\ Len(style) < Len(Nodes)
  /\ LET e == Len(style) + 1
     IN style' = Append(style, IF Elem(e) THEN StyleOf(e) ELSE <<>>)
  /\ UNCHANGED <<t, phase, boxes, queue, frags, list, verdict>>
=============================================================================
