-------------------------------- MODULE Anim --------------------------------
(* Scripted element animations.  Each animated element carries tracks that run
   together; a track holds `from` until its window, moves along its curve inside
   it, and holds `to` afterwards.  One-shot windows belong to the scene clock and
   replay with every loop; repeating ones run on the document's clock.  Motion of
   an element carries everything inside it, tracks compose in the order written,
   and an origin makes them act about that point.
   Scaled integers: progress and scale in thousandths, places in tenths of px. *)
EXTENDS Integers, Sequences
VARIABLES els, tabs, loop, now
vars == <<els, tabs, loop, now>>
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
\* eased progress from a table of 101 samples (tabs[1] is the identity)
Curve(k, u) == LET T == tabs[k] i == u \div 10 IN IF u >= 1000 THEN T[101] ELSE T[i + 1] + ((T[i + 2] - T[i + 1]) * (u % 10)) \div 10
Clamp(u) == MaxI(0, MinI(1000, u))
\* raw progress of a track of element e at document time t
Raw(e, k, t) ==
  IF e.rep = 0 THEN Clamp((((t % loop) - k.start) * 1000) \div k.dur)
  ELSE LET p == t - k.start n == p \div k.dur i == ((p % k.dur) * 1000) \div k.dur IN
       IF p < 0 THEN 0
       ELSE IF e.rep > 0 /\ n >= e.rep THEN (IF e.alt /\ e.rep % 2 = 0 THEN 0 ELSE 1000)
       ELSE IF e.alt /\ n % 2 = 1 THEN 1000 - i ELSE i
\* an alternating repetition runs its curve backwards, so the curve applies to the reflected progress
Val(e, k, t) == LET u == Raw(e, k, t) c == IF u = 0 /\ e.rep = 0 /\ (t % loop) < k.start THEN 0 ELSE Curve(k.curve, u) IN k.from + ((k.to - k.from) * c) \div 1000
Id == [s |-> 1000, x |-> 0, y |-> 0, o |-> 1000]
Move(m, dx, dy) == [m EXCEPT !.x = @ + (m.s * dx) \div 1000, !.y = @ + (m.s * dy) \div 1000]
Apply(m, e, k, t) == LET v == Val(e, k, t) IN
  CASE k.prop = "translateX" -> Move(m, v, 0) [] k.prop = "translateY" -> Move(m, 0, v)
    [] k.prop = "scale" -> [m EXCEPT !.s = (@ * v) \div 1000] [] k.prop = "opacity" -> [m EXCEPT !.o = (@ * Clamp(v)) \div 1000]
RECURSIVE Tracks(_, _, _, _)
Tracks(m, e, i, t) == IF i > Len(e.tracks) THEN m ELSE Tracks(Apply(m, e, e.tracks[i], t), e, i + 1, t)
Own(m, e, t) == Move(Tracks(Move(m, e.ox, e.oy), e, 1, t), -e.ox, -e.oy)
RECURSIVE Place(_, _)
Place(k, t) == IF k = 0 THEN Id ELSE Own(Place(els[k].par, t), els[k], t)
AnimInit(e, c, l) == els = e /\ tabs = c /\ loop = l /\ now = 0
Tick(d) == now' = now + d /\ UNCHANGED <<els, tabs, loop>>
\* ---- what the machine guarantees
Each(P(_, _)) == \A k \in 1..Len(els) : \A i \in 1..Len(els[k].tracks) : P(els[k], els[k].tracks[i])
Holds == LET P(e, k) == e.rep = 0 => /\ ((now % loop) <= k.start => Val(e, k, now) = k.from) /\ ((now % loop) >= k.start + k.dur => Val(e, k, now) = k.to) IN Each(P)
Between == LET P(e, k) == k.curve = 1 => Val(e, k, now) >= MinI(k.from, k.to) /\ Val(e, k, now) <= MaxI(k.from, k.to) IN Each(P)
Replays == LET P(e, k) == e.rep = 0 => Val(e, k, now) = Val(e, k, now + loop) IN Each(P)
=============================================================================
