------------------------------- MODULE PointerMC -------------------------------
(* every short script, played tick by tick *)
EXTENDS Pointer, TLC, Json
CONSTANTS Total, Show
VARIABLES evs, i, s, now, was
vars == <<evs, i, s, now, was>>
Ev(k, t, x, dur, rel) == [k |-> k, t |-> t, x |-> x, y |-> 0, dur |-> dur, rel |-> rel, kind |-> ""]
E == {Ev("show", t, x, 0, FALSE) : t \in {0, 2}, x \in {0, 6}} \cup {Ev("hide", t, 0, 0, FALSE) : t \in {2, 5}}
     \cup {Ev("move", t, 8, d, FALSE) : t \in {0, 2, 3}, d \in {0, 2, 4}} \cup {Ev("move", t, -4, d, TRUE) : t \in {1, 3}, d \in {0, 2, 4}}
     \cup {Ev("click", t, 0, 0, FALSE) : t \in {2, 3}}
Sorted(q) == \A a \in 1..Len(q) - 1 : q[a].t <= q[a + 1].t
Init == evs \in {q \in E \X E \X E : Sorted(q)} /\ i = 1 /\ s = Start /\ now = 0 /\ was = Start
Due == i <= Len(evs) /\ evs[i].t = now
Event == Due /\ s' = Take(s, evs[i]) /\ i' = i + 1 /\ was' = s /\ UNCHANGED <<evs, now>>
Tick == ~Due /\ now < Total /\ now' = now + 1 /\ was' = s /\ UNCHANGED <<evs, i, s>>
Next == Event \/ Tick
Spec == Init /\ [][Next]_vars
\* playing tick by tick is the same as looking the script up
Lookup == ~Due => s = At(evs, now)
\* it rests outside move windows
Rests == (s = was /\ now > 0 /\ ~(s.t0 < now /\ now <= s.t1)) => X(s, now) = X(s, now - 1)
\* an uninterrupted move arrives on time
Arrives == \A a \in 1..Len(evs) : (evs[a].k = "move" /\ a < i /\ now = evs[a].t + evs[a].dur /\ ~Due /\ \A b \in a + 1..i - 1 : evs[b].k = "click") =>
             X(s, now) = Goal(Play(Start, SubSeq(evs, 1, a - 1), 1, evs[a].t), evs[a])[1]
\* taking an event never moves a pointer that is not told to jump
Smooth == (s # was /\ i > 1 /\ (evs[i - 1].k \in {"hide", "click"} \/ (evs[i - 1].k = "move" /\ evs[i - 1].dur > 0))) => (Due \/ X(s, now) = X(was, now) \/ s.vis)
Export == (Show /\ now = 0 /\ i = 1) => PrintT("@@" \o ToJson(evs))
=============================================================================
