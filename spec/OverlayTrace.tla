----------------------------- MODULE OverlayTrace -----------------------------
EXTENDS Overlay, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<ovs, total, slack, now, typed, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
C == Traces[tr].cfg
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Setup(Traces[tr].cfg.ovs, Traces[tr].cfg.total, Traces[tr].cfg.slack)
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr
Set(q) == {q[i] : i \in 1..Len(q)}
\* the lines laid out are the requested text, broken at blanks (or inside a word too wide for a line) and at line ends
RECURSIVE Fits(_, _, _, _, _)
Fits(txt, i, lines, j, k) ==
  IF j > Len(lines) THEN i > Len(txt)
  ELSE IF k <= Len(lines[j]) THEN i <= Len(txt) /\ txt[i] = lines[j][k] /\ Fits(txt, i + 1, lines, j, k + 1)
  ELSE \/ j = Len(lines) /\ i > Len(txt)
       \/ j < Len(lines) /\ i <= Len(txt) /\ txt[i] \in {10, 32} /\ Fits(txt, i + 1, lines, j + 1, 1)
       \/ j < Len(lines) /\ i <= Len(txt) /\ txt[i] # 10 /\ k > 1 /\ Fits(txt, i, lines, j + 1, 1)
Laid == /\ Is("laid")
        /\ E.text # <<>> => Fits(E.text, 1, E.lines, 1, 1)
        /\ E.cols > 0 => \A j \in 1..Len(E.lines) : Len(E.lines[j]) <= E.cols
        /\ UNCHANGED vars
Reach == l <= Len(Ev) /\ E.e = "look" /\ now < E.t /\ Pass(E.t) /\ UNCHANGED <<tr, l>>
Type == l <= Len(Ev) /\ E.e = "look" /\ now = E.t /\ (\E k \in 1..Len(ovs) : Press(k) /\ ~(\E q \in 1..k - 1 : Overdue(ovs[q], typed[q], now))) /\ UNCHANGED <<tr, l>>
Last(q) == IF q = <<>> THEN 0 ELSE q[Len(q)]
Begun(o, q) == \A p \in 1..Last(q) : o.pos[p].ink = (\E i \in 1..Len(q) : q[i] = p)
\* where the times of single keystrokes are free, what has been seen is remembered: it never shrinks
Noted(k, v) == LET o == ovs[k] s == typed[k] IN
  IF o.kind = "typing" /\ o.loose /\ ~Finished(o, s) /\ Visible(o, E.t) = "on" THEN [s EXCEPT !.n = Last(v.seen)] ELSE s
Written(k, v) ==
  LET o == ovs[k] s == typed[k] right == Prefix(o, s)
      wrong == IF s.st = "slipped" THEN {<<SlipAt(o, s).l, SlipAt(o, s).c>>} ELSE {}
      here == CaretAt(o, s)
  IN CASE Visible(o, E.t) = "off" -> v.seen = <<>> /\ v.wrong = <<>> /\ ~v.caret /\ ~v.mask
       [] Visible(o, E.t) = "on" ->
            /\ v.solid /\ v.mask = o.mask /\ v.apt
            /\ Quiet(o, s, E.t) => (Set(v.seen) = right /\ Set(v.wrong) = wrong)
            /\ o.tight \/ (Begun(o, v.seen) /\ Len(v.wrong) <= 1)
            /\ (o.loose /\ ~o.tight) => (Last(v.seen) >= s.n \/ Finished(o, s))
            /\ (o.caret /\ N(o) > 0 /\ E.t <= TextEnd(o) - slack) => v.caret
            /\ (v.caret /\ Quiet(o, s, E.t)) => (o.caret /\ v.li = here.l /\ v.col = here.c + (IF s.st = "slipped" THEN o.wide[s.n + 1] ELSE 0))
       [] OTHER -> o.tight \/ (Begun(o, v.seen) /\ Len(v.wrong) <= 1)
Matches(k, v) ==
  LET o == ovs[k] IN
  IF o.kind = "typing" THEN Written(k, v)
  ELSE /\ (E.lap > 0 /\ o.rep # 0 /\ Visible(o, E.t) = "on") \/ Agrees(o, E.t, v.on)
       /\ (o.kind = "svg" /\ v.on) => Placed(o, E.t, v.dx, v.dy)
Look == /\ Is("look") /\ now = E.t /\ \A k \in 1..Len(ovs) : ~Overdue(ovs[k], typed[k], E.t) /\ Matches(k, E.vs[k])
        /\ typed' = [k \in DOMAIN typed |-> Noted(k, E.vs[k])] /\ UNCHANGED <<ovs, total, slack, now>>
Again == Is("again") /\ Restart
Next == Laid \/ Reach \/ Type \/ Look \/ Again
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
