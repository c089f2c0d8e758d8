-------------------------------- MODULE Cull --------------------------------
(* Skipping off-screen content.  Elements are boxes on one axis, each possibly
   inside another and possibly moved by one linear animation that its whole
   subtree rides on.  A one-shot animation is replayed by the scene's loop; a
   repeating one runs on the document's own clock, so its phase differs from one
   scene loop to the next.  The pass gives every element one window of the scene
   loop in which it is drawn (or none at all); Safe says that nothing that
   reaches into the viewport is ever outside a window, its own or an ancestor's. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES els, loop, view, now      \* loop: scene length; view: viewport extent; now: document clock
vars == <<els, loop, view, now>>
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Min2(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
Lerp(a, p, d) == a.from + ((a.to - a.from) * p) \div d
\* shift an animation adds at document time t
Shift(a, t) ==
  IF a.kind = "none" THEN 0
  ELSE IF a.kind = "once" THEN LET p == (t % loop) - a.start IN Lerp(a, MaxI(0, MinI(p, a.dur)), a.dur)
  ELSE LET p == t - a.start n == p \div a.dur i == p % a.dur IN
       IF p < 0 THEN a.from
       ELSE IF a.kind = "times" /\ n >= a.n THEN (IF a.alt /\ a.n % 2 = 0 THEN a.from ELSE a.to)
       ELSE IF a.alt /\ n % 2 = 1 THEN Lerp(a, a.dur - i, a.dur) ELSE Lerp(a, i, a.dur)
RECURSIVE Off(_, _)
Off(k, t) == IF k = 0 THEN 0 ELSE Shift(els[k].anim, t) + Off(els[k].par, t)
Reaches(x, w, slack) == x + slack < view /\ x + w - slack > 0
Seen(k, t, slack) == Reaches(els[k].x + Off(k, t), els[k].w, slack)
\* ---- the pass: interval of shifts possible at scene instant p, over all loops
Lo(a, p) == IF a.kind = "once" \/ a.kind = "none" THEN Shift(a, p) ELSE MinI(a.from, a.to)
Hi(a, p) == IF a.kind = "once" \/ a.kind = "none" THEN Shift(a, p) ELSE MaxI(a.from, a.to)
RECURSIVE LoOff(_, _)
LoOff(k, p) == IF k = 0 THEN 0 ELSE Lo(els[k].anim, p) + LoOff(els[k].par, p)
RECURSIVE HiOff(_, _)
HiOff(k, p) == IF k = 0 THEN 0 ELSE Hi(els[k].anim, p) + HiOff(els[k].par, p)
Possible(k) == {p \in 0..(loop - 1) : els[k].x + LoOff(k, p) < view /\ els[k].x + els[k].w + HiOff(k, p) > 0}
Below(k) == {j \in 1..Len(els) : els[j].par = k}
RECURSIVE Hull(_)
Hull(k) == LET ps == Possible(k) \cup UNION {Hull(j) : j \in Below(k)} IN IF ps = {} THEN {} ELSE Min2(ps)..Max2(ps)
RECURSIVE Drawn(_, _)
Drawn(k, t) == k = 0 \/ ((t % loop) \in Hull(k) /\ Drawn(els[k].par, t))
\* ---- transitions
CullInit(e, l, v) == els = e /\ loop = l /\ view = v /\ now = 0
Tick(d) == now' = now + d /\ UNCHANGED <<els, loop, view>>
Safe == \A k \in 1..Len(els) : Seen(k, now, 0) => Drawn(k, now)
=============================================================================
