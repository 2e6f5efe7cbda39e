----------------------------- MODULE PlainTextMC -----------------------------
(***************************************************************************)
(* Every text of up to MaxSegs segments with widths 0 .. MaxW on every page *)
(* geometry in small bounds: the algorithm of PlainText.tla keeps the       *)
(* promises of C22 and C23, stated here over the finished lines.            *)
(***************************************************************************)
EXTENDS PlainText, TLC, Json
\* Avails and MaxYs are one too large, for -1 to be among them
CONSTANTS MaxSegs, MaxW, Avails, Heights, MaxYs, Emit

VARIABLE lines    \* finished lines: [from, to, page, y, w, spread, hard]
vars == <<lay, lines>>

Seg == [w : 0..MaxW, hard : BOOLEAN]
\* The end of the text is a mandatory break
Texts == UNION {{s \in [1..k -> Seg] : k = 0 \/ s[k].hard} : k \in 0..MaxSegs}

Init ==
    /\ \E s \in Texts, a \in Avails, h \in Heights, m \in MaxYs, j \in BOOLEAN :
          doc = [segs |-> s, avail |-> a - 1, minY |-> 0, maxY |-> m - 1, lh |-> h, justify |-> j]
    /\ LayInit
    /\ lines = <<>>

Line(a, b, w, hard) == [from |-> a, to |-> b, page |-> page, y |-> y, w |-> w,
                        spread |-> Spread(a, b, w, hard), hard |-> hard]
DoTake     == i <= N /\ MayTake /\ Take /\ UNCHANGED lines
DoTakeHard == i <= N /\ MayTake /\ TakeHard
              /\ lines' = Append(lines, Line(from, i, width + doc.segs[i].w, TRUE))
DoWrap     == i <= N /\ ~MustTake /\ Wrap /\ lines' = Append(lines, Line(from, i - 1, width, FALSE))
DoNothing  == Nothing /\ UNCHANGED lines
Finished   == done /\ UNCHANGED vars
Next == DoTake \/ DoTakeHard \/ DoWrap \/ DoNothing \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(DoTake \/ DoTakeHard \/ DoWrap \/ DoNothing)

RECURSIVE Sum(_, _)
Sum(a, b) == IF a > b THEN 0 ELSE doc.segs[a].w + Sum(a + 1, b)
L == Len(lines)

\* C22: every segment on exactly one line, in order
Conserved ==
    /\ \A k \in 1..L : lines[k].from = (IF k = 1 THEN 1 ELSE lines[k-1].to + 1) /\ lines[k].from <= lines[k].to
    /\ done => (IF L = 0 THEN N = 0 ELSE lines[L].to = N)
\* C22: a mandatory break ends the line
Mandatory == \A k \in 1..L : \A j \in lines[k].from .. lines[k].to : doc.segs[j].hard => j = lines[k].to
\* C22: lines are one line height apart from the top margin; a page ends exactly when the
\* next line would start below the bottom margin
Paginated ==
    \A k \in 1..L :
        IF k = 1 THEN lines[k].page = 1 /\ lines[k].y = doc.minY
        ELSE LET before == lines[k-1] IN
             IF before.y + doc.lh > doc.maxY
             THEN lines[k].page = before.page + 1 /\ lines[k].y = doc.minY
             ELSE lines[k].page = before.page /\ lines[k].y = before.y + doc.lh
\* C23: a line is never wider than the page unless one segment alone is, and no line that was
\* ended for lack of space could have taken the next segment
Greedy ==
    \A k \in 1..L :
        /\ Sum(lines[k].from, lines[k].to) > doc.avail =>
              \A j \in lines[k].from .. lines[k].to - 1 : doc.segs[j].w = 0 \/ doc.segs[lines[k].to].w = 0
              \* (zero-width segments before or after the one that is too wide)
        /\ ~lines[k].hard => lines[k].to < N /\ Sum(lines[k].from, lines[k].to + 1) > doc.avail
        /\ lines[k].w = Sum(lines[k].from, lines[k].to)
\* C23: spreading only on such lines, and exactly to the margin
Justified ==
    \A k \in 1..L : IF doc.justify /\ ~lines[k].hard /\ lines[k].w < doc.avail
                    THEN lines[k].w + lines[k].spread = doc.avail
                    ELSE lines[k].spread = 0
Terminates == <>done

\* The texts and geometries explored, for the replay into the real code
Export == (Emit /\ i = 1 /\ ~done /\ lines = <<>>) =>
             PrintT("@@" \o ToJson(doc))
=============================================================================
