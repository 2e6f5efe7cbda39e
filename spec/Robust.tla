------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* Input as it comes: pieces of markup, of style sheets, of declarations,   *)
(* in any order, sound or not, and the life of a document made of them:     *)
(* parsed, styled, made into boxes, laid out, painted, written.  Every      *)
(* stage ends and hands over to the next one, whatever the input; the only  *)
(* other end is that of XML which is not well-formed.  The only limit is    *)
(* how deep elements are nested.                                            *)
(* With Emit, the inputs are handed to the real code; its answers are       *)
(* judged in RobustTrace, by the same stages.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Length, Depth, Alphabet, Emit,
          Exact  \* no shorter inputs

Markup == <<
    "<div>", "</div>", "<p>", "</p>", "<span>", "</span>", "<b>", "</b>", "<i>", "<a>", "</a>", "<table>", "<tr>", "<td>", "</td>",
    "</table>", "<caption>", "<col>", "<br>", "</br>", "<hr>", "<img>", "<input type=hidden>", "<select>", "<option>", "<button>", "<li>",
    "<ul>", "<dd>", "<h1>", "</h2>", "<pre>", "\n", "<textarea>", "<title>", "<script>", "</script>", "<style>", "</style>", "<template>", "</template>",
    "<svg>", "</svg>", "<math>", "<mi>", "<foreignObject>", "<frameset>", "<frame>", "<noscript>", "<plaintext>", "<form>", "</form>",
    "<body>", "</body>", "<html>", "</html>", "<head>", "</head>", "x", "words of a text ", " ", "<", "</", "<!", "<!-", "<!--", "-->", "<!DOCTYPE html>",
    "<![CDATA[", "]]>", "<?x", "?>", "&", "&amp", "&#0;", "&#x110000;", "&#xD800;", "&nosuch;", ">", "/>", "=", "'", "\"", "<a b='", "<a b=c d>",
    "<p style='", "<p style=\"width:", "<div id=i class='a b'>", "<x:y>", "</x:y>",
    "<div style='position:absolute'>", "<div style='position:absolute;left:0;right:0;top:0;bottom:0;margin:auto'>", "<b style='position:relative;left:50%;top:50%'>",
    "<b style='position:absolute'>", "<b style='display:block'>", "<div style='display:inline'>", "<div style='display:none'>", "<b style='display:contents'>",
    "<div style='display:flow-root'>", "<div style='float:left'>", "<b style='float:right'>", "<p style='width:0;font-size:0'>", "<p style='width:-5px;padding:-5px'>",
    "<html style='display:inline'>", "<html style='display:none'>", "<html style='display:contents'>", "<html style='position:absolute'>", "<body style='display:none'>",
    "<html style='float:left'>", "<body style='position:fixed'>", "<style>*{display:inline}</style>", "<style>*{display:block}</style>", "<style>*{position:absolute}</style>",
    "<style>*{display:contents}</style>", "<style>*{position:relative;top:9%}</style>", "<style>*{float:left}</style>" >>

Css == <<
    "*", "a", "p", "body", "html", ".a", "#i", "[a]", "[a='", "[a=b i]", ":root", ":not(", ":nth-child(", "2n+1", "n", "-n- 1", ")", "(", "]", "[", ",", ">", "+", "~", " ", "|", "*|*", "::before", ":hover", ":", "&",
    "{", "}", ";", "!important", "! important", "!", "@media", "@media all{", "@import 'x';", "@charset 'x';", "@namespace", "@namespace svg url(x);", "@", "<!--", "-->", "/*", "*/", "'", "\"", "\\", "\\0 ", "\\d800 ", "\n", "url(", "url('x')",
    "width:", "height:", "margin:", "margin-left:", "padding:", "padding-top:", "border:", "border-width:", "border-style:", "border-left:", "display:", "position:", "left:", "top:", "float:", "color:", "background-color:", "font-size:", "block-size:", "nosuch:", "--x:",
    "0", "1px", "-1px", "50%", "1e38px", "-1e38px", "1e39px", "1e-45px", "1e9999px", "99999999999999999999em", "1em", "-1em", "1e30%", ".5in", "+.5e1cm", "1e", "1x", "auto", "inherit", "initial", "unset", "none", "block", "inline", "contents", "flow-root", "list-item", "absolute", "fixed", "relative", "static", "left",
    "solid", "thin", "thick", "red", "currentColor", "#", "#ff", "#fff", "#ffff", "#ggg", "rgb(", "rgba(1,2,3,.5)", "rgb(1e9,-5,300)", "hsl(1e30,1%,1%)", "calc(1px + 1em)", "var(--x)", "attr(x)" >>

Declarations == <<
    "width:1e38px;", "width:-1e38px;", "width:1e39px;", "width:1e20%;", "width:0;", "width:50%;", "height:1e38px;", "height:0;", "height:1e-45px;", "height:50%;",
    "margin:1e38px;", "margin:-1e38px;", "margin:auto;", "margin-left:-1e38px;", "margin-top:-1000000px;", "margin:1e30%;", "padding:1e38px;", "padding:1e30%;", "padding-left:3e38px;",
    "border:3e38px solid;", "border-top:1px solid red;", "font-size:1e38px;", "font-size:0;", "font-size:1e20em;", "font-size:1e-40px;", "font-size:-1px;",
    "position:absolute;", "position:relative;", "position:fixed;", "left:1e38px;", "right:-1e38px;", "left:auto;", "right:0;", "top:3e38px;", "top:1e30%;", "bottom:-3e38px;", "bottom:0;",
    "display:block;", "display:inline;", "display:none;", "display:contents;", "display:flow-root;", "float:left;", "background-color:red;", "color:rgba(1,2,3,.5);", "background-color:rgba(255,0,0,0);" >>

\* The tokens of XML, each with its kind and, for tags, its name
T(kind, name, text) == [kind |-> kind, name |-> name, text |-> text]
Xml == <<
    T("declaration", "", "<?xml version='1.0'?>"), T("declaration", "", "<?xml version=\"1.0\" encoding='UTF-8' standalone='yes'?>"),
    T("doctype", "", "<!DOCTYPE html>"), T("doctype", "", "<!DOCTYPE html PUBLIC '-//W3C//DTD XHTML 1.0 Strict//EN' 'x.dtd'>"), T("doctype", "", "<!DOCTYPE other>"),
    T("comment", "", "<!---->"), T("comment", "", "<!-- a - b <p> & -->"), T("pi", "", "<?a?>"), T("pi", "", "<?a-b c?>"), T("pi", "", "<?xml-stylesheet href='x.css'?>"), T("pi", "", "<?a <p> ? & ?>"),
    T("space", "", " "), T("space", "", "\n"), T("space", "", "\t\n  "),
    T("start", "html", "<html>"), T("start", "html", "<html xmlns='http://www.w3.org/1999/xhtml'>"), T("start", "html", "<html xmlns='http://www.w3.org/1999/xhtml' style='display:none'>"),
    T("start", "p", "<p>"), T("start", "p", "<p xmlns='http://www.w3.org/1999/xhtml'>"), T("start", "p", "<p style='position:absolute' class='a b'>"), T("start", "p", "<p xmlns='' a=\"'\" b='&#34;&lt;>'>"),
    T("start", "style", "<style>"), T("start", "style", "<style xmlns='http://www.w3.org/1999/xhtml'>"), T("start", "x:y", "<x:y xmlns:x='u' x:z='1' z='2'>"), T("start", "svg", "<svg xmlns='http://www.w3.org/2000/svg'>"),
    T("end", "html", "</html>"), T("end", "p", "</p>"), T("end", "p", "</p >"), T("end", "style", "</style>"), T("end", "x:y", "</x:y>"), T("end", "svg", "</svg>"),
    T("empty", "", "<p/>"), T("empty", "", "<br xmlns='http://www.w3.org/1999/xhtml' />"), T("empty", "", "<html/>"), T("empty", "", "<x:y xmlns:x='v'/>"), T("empty", "", "<style/>"), T("empty", "", "<p a='1' b='2'\n/>"),
    T("text", "", "words of a text"), T("text", "", "*{display:block}"), T("text", "", "p{color:red;float:left}"), T("text", "", "a > b"), T("text", "", "é"),
    T("text", "", "&amp;&lt;&gt;&quot;&apos;"), T("text", "", "&#65;&#x42;&#xE9;&#x1F600;"), T("text", "", "<![CDATA[]]>"), T("text", "", "<![CDATA[a<b>&c]]>"), T("text", "", "<![CDATA[ ]] ]]>"),
    T("broken", "", "<p a='1' a='2'>"), T("broken", "", "<p a=1>"), T("broken", "", "<p a>"), T("broken", "", "<q:r>"), T("broken", "", "&"), T("broken", "", "&nosuch;"), T("broken", "", "<"), T("broken", "", "<p"), T("broken", "", "<!-- a"),
    T("broken", "", "<!-- a -- b -->"), T("broken", "", "<![CDATA[a"), T("broken", "", "<?a"), T("broken", "", "<1/>"), T("broken", "", "</>"), T("broken", "", "< p>"), T("broken", "", "<p a='<'/>"), T("broken", "", "&#0;") >>
IsXml == Alphabet \in {"xml", "xml soup"}
Pieces == CASE Alphabet = "markup" -> Markup [] Alphabet = "css" -> Css [] IsXml -> [k \in DOMAIN Xml |-> Xml[k].text] [] OTHER -> Declarations

VARIABLES input, deep, stage, answer,
          place, open  \* of XML: where its last token is, and the names of the elements that are open there
vars == <<input, deep, stage, answer, place, open>>
Init == input = <<>> /\ deep = 0 /\ stage = "input" /\ answer = "" /\ place = "start" /\ open = <<>>

\* Where the next token of a well-formed document is, after its first ones: "" if nowhere
\* start, then after the declaration: prolog, after the type: typed, in the root: content, after it: epilog
Place(x) ==
    CASE place = "" \/ x.kind = "broken" -> ""
      [] x.kind = "declaration" -> IF input = <<>> THEN "prolog" ELSE ""
      [] x.kind = "doctype" -> IF place \in {"start", "prolog"} THEN "typed" ELSE ""
      [] x.kind \in {"comment", "pi", "space"} -> IF place = "start" THEN "prolog" ELSE place
      [] x.kind = "start" -> IF place = "epilog" THEN "" ELSE "content"
      [] x.kind = "empty" -> IF place = "epilog" THEN "" ELSE IF open = <<>> THEN "epilog" ELSE "content"
      [] x.kind = "end" -> IF open # <<>> /\ open[Len(open)] = x.name THEN IF Len(open) = 1 THEN "epilog" ELSE "content" ELSE ""
      [] x.kind = "text" -> IF place = "content" THEN "content" ELSE ""
WellFormed == place = "epilog"
Token(x) ==
    /\ place' = Place(x)
    /\ open' = IF x.kind = "start" THEN Append(open, x.name)
               ELSE IF x.kind = "end" /\ open # <<>> THEN SubSeq(open, 1, Len(open) - 1) ELSE open
    /\ Alphabet = "xml" => place' # ""

Stages == <<"input", "parsed", "styled", "boxes", "laid out", "painted", "written">>
After(s) == Stages[(CHOOSE k \in DOMAIN Stages : Stages[k] = s) + 1]

\* At most this many elements are opened: more does not nest deeper than that
Opens(piece) == Alphabet = "markup" \/ IsXml
Add ==
    /\ stage = "input" /\ Len(input) < Length
    /\ \E k \in DOMAIN Pieces :
          /\ input' = Append(input, k)
          /\ deep' = deep + (IF Opens(Pieces[k]) THEN 1 ELSE 0)
          /\ IF IsXml THEN Token(Xml[k]) ELSE UNCHANGED <<place, open>>
    /\ deep' <= Depth
    /\ UNCHANGED <<stage, answer>>
Stage ==
    /\ stage \notin {"written", "refused"}
    /\ stage' = IF stage = "input" /\ IsXml /\ ~WellFormed THEN "refused" ELSE After(stage)
    /\ answer' = IF stage' = "written" THEN "one page" ELSE IF stage' = "refused" THEN "error" ELSE ""
    /\ UNCHANGED <<input, deep, place, open>>
Next == Add \/ Stage
Spec == Init /\ [][Next]_vars /\ WF_vars(Stage)

Answered == <>(answer = "one page" \/ (IsXml /\ answer = "error"))
\* A document is one tree: what is written had one root, closed
OneRoot == IsXml /\ stage = "parsed" => open = <<>> /\ \E k \in DOMAIN input : Xml[input[k]].kind \in {"start", "empty"}
Text(q) == [j \in DOMAIN q |-> Pieces[q[j]]]
\* With -simulate: only inputs of full length
Decided == stage \in {"parsed", "refused"}
Closing == [j \in 1..Len(open) |-> "</" \o open[Len(open) + 1 - j] \o ">"]
Export == Emit /\ Decided /\ (Exact => Len(input) = Length) =>
    PrintT("@@" \o ToJson(IF IsXml THEN [form |-> IF stage = "parsed" THEN "sound" ELSE "unsound", pieces |-> Text(input), closing |-> IF place \in {"content", "epilog"} THEN Closing ELSE <<>>, place |-> place]
                          ELSE [form |-> "html", pieces |-> Text(input), closing |-> <<>>, place |-> ""]))
Full == Exact => ~(Decided /\ Len(input) < Length)
=============================================================================
