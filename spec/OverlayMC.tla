------------------------------ MODULE OverlayMC ------------------------------
(* one overlay of every kind and timing on the first or last of two frames, moment by moment; times in steps of 50 *)
EXTENDS Overlay, TLC, Json
CONSTANTS Show
VARIABLE log
mvars == <<ovs, total, slack, now, typed, log>>
NoMove == [dx |-> 0, dy |-> 0, delay |-> 0, dur |-> 0]
Base == [kind |-> "", at |-> 0, hold |-> 600, tms |-> 100, last |-> FALSE, delay |-> 0, end |-> -1, dur |-> 200, held |-> 100, rel |-> 100, per |-> 200, rep |-> 0,
         ent |-> NoMove, ext |-> NoMove, pos |-> <<>>, slips |-> <<>>, speed |-> 50, think |-> 100, keep |-> FALSE, paste |-> FALSE, loose |-> FALSE, tight |-> FALSE]
Text == [p \in 1..3 |-> [l |-> IF p = 3 THEN 1 ELSE 0, c |-> IF p = 3 THEN 0 ELSE p - 1, ink |-> p # 2]]
Placing == {[at |-> 0, tms |-> 100, last |-> FALSE], [at |-> 0, tms |-> 0, last |-> FALSE], [at |-> 600, tms |-> 0, last |-> TRUE]}
Timed == {[Base EXCEPT !.kind = k, !.at = p.at, !.tms = p.tms, !.last = p.last, !.delay = d, !.end = e] :
            k \in {"typing", "tap", "svg", "blink", "shine", "interact"}, p \in Placing, d \in {0, 150, 550, 600, 700}, e \in {-1, 0, 150, 400, 900}}
All == {[o EXCEPT !.rep = r, !.held = h] : o \in {x \in Timed : x.kind \in {"shine", "interact"}}, r \in {0, 2, -1}, h \in {0, 100}}
       \cup {[o EXCEPT !.per = r] : o \in {x \in Timed : x.kind = "blink"}, r \in {0, 200, 1000}}
       \cup {[o EXCEPT !.ent.dur = a, !.ent.dx = IF a > 0 THEN -9 ELSE 0, !.ext.dur = b, !.ext.dy = IF b > 0 THEN 5 ELSE 0] : o \in {x \in Timed : x.kind = "svg"}, a \in {0, 200}, b \in {0, 150}}
       \cup {x \in Timed : x.kind = "tap"}
       \cup {[o EXCEPT !.pos = Text, !.slips = s, !.speed = v, !.keep = q, !.paste = w] : o \in {x \in Timed : x.kind = "typing"}, s \in {<<>>, <<1>>, <<2, 3>>}, v \in {50, 150}, q \in BOOLEAN, w \in BOOLEAN}
Init == \E o \in {x \in All : ~(x.paste /\ x.slips # <<>>)} : Setup(<<o>>, IF o.last THEN 1200 ELSE 700 + 500, 0) /\ log = <<>>
O == ovs[1]
S == typed[1]
Type == (\E k \in {1} : Press(k)) /\ log' = Append(log, Stroke(O, S).st)
Late == \E k \in {1} : Typing(ovs[k]) /\ ~Finished(ovs[k], typed[k]) /\ Due(ovs[k], typed[k]) <= now
Tick == ~Late /\ now + 50 < total /\ Pass(now + 50) /\ UNCHANGED log
Again == ~Late /\ now + 50 >= total /\ Restart /\ log' = <<>>
Next == Type \/ Tick \/ Again
Spec == Init /\ [][Next]_mvars
\* nothing is claimed visible outside the overlay's window, nor outside its frame's own time (a self-timed tap aside)
Within == Visible(O, now) = "on" => On(O) <= now /\ now <= total /\ (O.kind # "tap" => now <= O.at + O.hold) /\ (O.end >= 0 => now <= O.at + Hi(1, O.end))
NotBefore == now < On(O) - 1 => Visible(O, now) = "off"
\* whatever is not hidden after the window is only the fade into the next frame
Fades == (now > Off(O) /\ Visible(O, now) # "off") => (O.kind = "tap" \/ (O.kind = "typing" /\ now <= Off(O) + Hi(1, O.tms)))
\* text grows by one, only right after each slip was made and taken back
Legible == /\ S.n \in 0..N(O) /\ (S.st = "slipped" => IsSlip(O, S.n + 1))
           /\ Len(log) = S.n + 2 * Before(O, S.n + 1) + (IF S.st = "slipped" THEN 1 ELSE IF S.st = "fixed" THEN 2 ELSE 0)
Complete == (Typing(O) /\ now >= TextEnd(O) + 1 /\ now > 0 /\ ~Late) => Finished(O, S)
InTime == Typing(O) => TextEnd(O) <= Hi(Off(O), On(O) + 1) /\ Gone(O) <= Hi(Off(O) + O.tms, On(O) + 1 + O.tms)
\* keystrokes never go back in time
Ordered == (Typing(O) /\ ~Finished(O, S) /\ ~Finished(O, Stroke(O, S))) => Due(O, S) <= Due(O, Stroke(O, S))
LastDue == (Typing(O) /\ ~O.paste /\ S.n = N(O) - 1 /\ CanKey(O, S)) => Due(O, S) = TextEnd(O)
CaretFollows == [][(typed # typed' /\ now' > 0 /\ typed'[1].n > S.n) => CaretAt(O, typed'[1]) = [l |-> O.pos[typed'[1].n].l, c |-> O.pos[typed'[1].n].c + 1]]_mvars
Export == (Show /\ now = 0 /\ log = <<>>) => PrintT("@@" \o ToJson(O))
=============================================================================
