-------------------------------- MODULE Overlay --------------------------------
(* Overlays on a frame: when each may, must and must not be seen, and the keystrokes of typed text.
   An overlay o: kind, at (start of its frame in the loop), hold (how long the frame is shown), tms (length of the
   transition that follows), last (its frame is the loop's last), delay, end (its own window end, -1: the frame's),
   dur / held / rel / per / rep (effect timing; rep 0: once, -1: without end), ent / ext (svg entrance, exit),
   and for typing: pos (sequence of [l, c, ink]: where each character stands and whether it leaves ink), slips
   (positions mistyped first), speed, think, keep, paste, loose (per-key times are not fixed). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ovs, total, slack, now, typed
vars == <<ovs, total, slack, now, typed>>
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
\* ---- windows
Win(o) == IF o.end < 0 THEN o.hold ELSE Lo(o.hold, Hi(1, o.end))
Off(o) == o.at + Win(o)
On(o) == o.at + (IF o.kind = "svg" THEN Lo(o.delay, Hi(0, Win(o) - 1)) ELSE o.delay)
Early(o) == Win(o) < o.hold
LoopOut(o) == ~Early(o) /\ o.last /\ ~o.keep
Tail_(o) == IF ~Early(o) /\ ~o.last THEN o.tms ELSE 0
Never(o) == On(o) >= Off(o) /\ o.kind \notin {"svg", "tap"}
\* ---- typing
N(o) == Len(o.pos)
Before(o, p) == Cardinality({q \in 1..Len(o.slips) : o.slips[q] < p})
IsSlip(o, p) == \E q \in 1..Len(o.slips) : o.slips[q] = p
Detour(o) == 2 * o.speed + o.think
Raw(o) == N(o) * o.speed + Len(o.slips) * Detour(o)
Reserve(o) == IF LoopOut(o) THEN 150 ELSE 0
TextEnd(o) == Lo(On(o) + Hi(1, N(o)) * o.speed + Len(o.slips) * Detour(o), Hi(On(o) + 1, Off(o) - Reserve(o)))
HoldEnd(o) == Hi(TextEnd(o), Off(o) - Reserve(o))
Gone(o) == IF LoopOut(o) THEN Lo(Off(o), HoldEnd(o) + 100) ELSE Lo(total, HoldEnd(o) + Tail_(o))
\* a typist: how many right characters stand, and whether a wrong one follows ("slipped") or was just taken back ("fixed")
Idle == [n |-> 0, st |-> "ready", at |-> -100000]
CanKey(o, s) == s.n < N(o) /\ s.st # "slipped" /\ (IsSlip(o, s.n + 1) => s.st = "fixed")
CanSlip(o, s) == s.n < N(o) /\ s.st = "ready" /\ IsSlip(o, s.n + 1)
CanErase(o, s) == s.st = "slipped"
Finished(o, s) == s.n = N(o)
\* unhurried time of the next keystroke, and when it falls after the hurry to fit the window
Effort(o, s) == s.n * o.speed + Before(o, s.n + 1) * Detour(o)
                + (IF s.st = "slipped" THEN Detour(o) ELSE IF s.st = "fixed" THEN Detour(o) + o.speed ELSE o.speed)
Due(o, s) == IF o.paste THEN On(o) ELSE On(o) + (Effort(o, s) * (TextEnd(o) - On(o))) \div Hi(1, Raw(o))
Stroke(o, s) == LET d == IF o.loose THEN s.at ELSE Due(o, s) IN
                IF o.loose THEN [n |-> N(o), st |-> "ready", at |-> TextEnd(o)] ELSE IF o.paste /\ N(o) > 12 /\ o.slips = <<>> THEN [n |-> N(o), st |-> "ready", at |-> On(o)] ELSE IF CanKey(o, s) THEN [n |-> s.n + 1, st |-> "ready", at |-> d] ELSE IF CanSlip(o, s) THEN [s EXCEPT !.st = "slipped", !.at = d] ELSE [s EXCEPT !.st = "fixed", !.at = d]
\* no keystroke falls about now
Quiet(o, s, t) == /\ s.at < t - slack /\ (Finished(o, s) \/ (~o.loose /\ Due(o, s) > t + slack)) /\ ~o.tight
Typing(o) == o.kind = "typing" /\ ~Never(o)
\* the keystroke may happen about now / must have happened by now
MayStroke(o, s, t) == /\ Typing(o) /\ ~Finished(o, s)
                      /\ IF o.loose THEN t >= TextEnd(o) - slack ELSE t >= Due(o, s) - slack
Overdue(o, s, t) == /\ Typing(o) /\ ~Finished(o, s)
                    /\ IF o.loose THEN t > TextEnd(o) + slack ELSE t > Due(o, s) + slack
Press(k) == /\ MayStroke(ovs[k], typed[k], now) /\ typed' = [typed EXCEPT ![k] = Stroke(ovs[k], @)] /\ UNCHANGED <<ovs, total, slack, now>>
\* time passes; where the loop starts over everybody starts over
Pass(t) == /\ t >= now /\ now' = t /\ UNCHANGED <<ovs, total, slack, typed>>
Restart == now' = 0 /\ typed' = [k \in DOMAIN typed |-> Idle] /\ UNCHANGED <<ovs, total, slack>>
\* ---- what may be seen of each kind at t: "on", "off" or "any" (about to change, or on its way)
Span(t, a, a2, b, b2) == IF t < a - slack \/ t > b2 + slack THEN "off" ELSE IF a2 + slack <= t /\ t <= b - slack THEN "on" ELSE "any"
Visible(o, t) ==
  CASE Never(o) -> "off"
    [] o.kind = "typing" -> Span(t, On(o), On(o) + 50, IF LoopOut(o) THEN Off(o) - 150 ELSE HoldEnd(o), Gone(o))
    [] o.kind = "svg" -> Span(t, On(o) - 1, On(o), Off(o) - 1, Off(o))
    [] o.kind = "tap" -> LET cut == Lo(total, IF o.end < 0 THEN total ELSE Off(o)) IN
                         IF cut <= On(o) THEN "off" ELSE Span(t, On(o), On(o) + 40, Lo(On(o) + 300, cut - 60), Lo(On(o) + 502, cut + 2))
    [] o.kind = "blink" -> LET half == IF o.per > 0 THEN o.per \div 2 ELSE 100000000 IN
                           IF t < On(o) - slack \/ t > Off(o) + slack THEN "off"
                           ELSE IF \/ (t - On(o)) % half < slack \/ (t - On(o)) % half > half - slack \/ t < On(o) + slack \/ t > Off(o) - slack THEN "any"
                           ELSE IF ((t - On(o)) \div half) % 2 = 0 THEN "on" ELSE "off"
    [] o.kind = "shine" /\ o.rep = 0 -> LET b == Lo(Off(o), On(o) + o.dur) m == (On(o) + b) \div 2 IN Span(t, On(o), m - (b - On(o)) \div 10, m + (b - On(o)) \div 10, b)
    [] o.kind = "shine" -> Span(t, On(o), On(o) + (o.per * 4) \div 10, Lo(On(o) + (o.per * 6) \div 10, Off(o)), IF o.rep < 0 THEN Off(o) ELSE Lo(Off(o), On(o) + o.rep * o.per))
    [] o.kind = "interact" /\ o.rep = 0 ->
         LET peak == Lo(On(o) + o.dur, Off(o)) stay == Lo(peak + o.held, Hi(peak, Off(o) - o.rel)) IN Span(t, On(o), peak, stay, Lo(stay + o.rel, Off(o)))
    [] OTHER -> Span(t, On(o), On(o) + o.dur, Lo(On(o) + o.dur + o.held, Off(o)), IF o.rep < 0 THEN Off(o) ELSE Lo(Off(o), On(o) + o.rep * o.per))
Agrees(o, t, seen) == \/ Visible(o, t) = "any" \/ (Visible(o, t) = "on") = seen
\* ---- what typed text shows
Prefix(o, s) == {p \in 1..s.n : o.pos[p].ink}
CaretAt(o, s) == IF s.st # "ready" THEN [l |-> o.pos[s.n + 1].l, c |-> o.pos[s.n + 1].c] ELSE IF s.n = 0 THEN [l |-> 0, c |-> 0] ELSE [l |-> o.pos[s.n].l, c |-> o.pos[s.n].c + 1]
\* a slip is typed where the right character belongs
SlipAt(o, s) == o.pos[s.n + 1]
\* ---- svg: where the content sits; ent = [dx, dy, delay, dur] from that offset, ext likewise to it, dur 0: none
EnterFrom(o) == On(o) + o.ent.delay
EnterTo(o) == EnterFrom(o) + o.ent.dur
ExitFrom(o) == Off(o) - o.ext.dur - o.ext.delay
ExitTo(o) == Off(o) - o.ext.delay
Resting(o, t) == (o.ent.dur = 0 \/ t >= EnterTo(o) + slack) /\ (o.ext.dur = 0 \/ t <= ExitFrom(o) - slack)
Arriving(o, t) == o.ent.dur > 0 /\ t <= EnterFrom(o) - slack /\ (o.ext.dur = 0 \/ t <= ExitFrom(o) - slack)
Left(o, t) == o.ext.dur > 0 /\ t >= ExitTo(o) + slack /\ (o.ent.dur = 0 \/ t >= EnterTo(o) + slack)
Placed(o, t, dx, dy) == /\ Resting(o, t) => dx = 0 /\ dy = 0
                        /\ Arriving(o, t) => dx = o.ent.dx /\ dy = o.ent.dy
                        /\ Left(o, t) => dx = o.ext.dx /\ dy = o.ext.dy
Setup(os, tot, sl) == ovs = os /\ total = tot /\ slack = sl /\ now = 0 /\ typed = [k \in 1..Len(os) |-> Idle]
=============================================================================
