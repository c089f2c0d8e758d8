-------------------------------- MODULE CaretMC --------------------------------
(* every short script over two small pieces of text, played tick by tick *)
EXTENDS Caret, TLC, Json
CONSTANTS Total, Show
VARIABLES evs, i, s, now, was
vars == <<evs, i, s, now, was>>
Run(x, xs, end, dir) == [x |-> x, y |-> 0, w |-> 1000, asc |-> 800, h |-> 1000, size |-> 1000, xs |-> xs, end |-> end, dir |-> dir]
T == << <<Run(0, <<0, 500>>, 900, "l"), Run(0, <<700, 300, 0>>, 1000, "r")>>, <<Run(0, <<0, 400>>, 1000, "v")>> >>
P(t, k, off) == [e |-> "place", t |-> t, k |-> k, off |-> off, a |-> 0, b |-> 0, sweep |-> 0, c |-> 0]
Hd(t) == [e |-> "hide", t |-> t, k |-> 1, off |-> 0, a |-> 0, b |-> 0, sweep |-> 0, c |-> 0]
Sl(t, k, a, b, w) == [e |-> "select", t |-> t, k |-> k, off |-> 0, a |-> a, b |-> b, sweep |-> w, c |-> 1]
Cl(t) == [e |-> "clear", t |-> t, k |-> 1, off |-> 0, a |-> 0, b |-> 0, sweep |-> 0, c |-> 0]
E == {P(t, k, off) : t \in {0, 2}, k \in {1, 2}, off \in {0, 2, 5, 9}} \cup {Hd(t) : t \in {0, 2, 4}}
     \cup {Sl(t, 1, a, 4, w) : t \in {0, 2}, a \in {1, 3, 7}, w \in {0, 3, 6}} \cup {Sl(2, 2, 0, 2, 2)} \cup {Cl(t) : t \in {1, 2, 4}}
Sorted(q) == \A a \in 1..Len(q) - 1 : q[a].t <= q[a + 1].t
Init == evs \in {q \in E \X E \X E : Sorted(q)} /\ i = 1 /\ s = Blank /\ now = 0 /\ was = Blank
Due == i <= Len(evs) /\ evs[i].t = now
Event == Due /\ s' = Take(T, evs, s, evs[i]) /\ i' = i + 1 /\ was' = s /\ UNCHANGED <<evs, now>>
Tick == ~Due /\ now < Total /\ now' = now + 1 /\ was' = s /\ UNCHANGED <<evs, i, s>>
Next == Event \/ Tick
Spec == Init /\ [][Next]_vars
Lookup == ~Due => s = At(T, evs, now)
\* nothing shows before the first event, nor without an event of its kind
Silent == (\A j \in 1..i - 1 : evs[j].e # "place") => ~s.shown
Unmarked == (\A j \in 1..i - 1 : evs[j].e # "select") => Marks(T, s.sels, now, 0) = <<>>
\* a clear takes away exactly one selection, the youngest, for good
Cleared == (i > 1 /\ evs[i - 1].e = "clear" /\ s # was) => (Len(s.sels) = Len(was.sels) /\ \E j \in 1..Len(s.sels) : was.sels[j].on /\ ~s.sels[j].on /\ \A m \in 1..Len(s.sels) : (m # j => s.sels[m] = was.sels[m]) /\ (m > j => ~s.sels[m].on))
\* what is marked only grows while nothing is cleared
Sum(bs) == LET f[n \in 0..Len(bs)] == IF n = 0 THEN 0 ELSE f[n - 1] + bs[n].w * (bs[n].h \div 100) IN f[Len(bs)]
Grows == (s = was /\ now > 0) => Sum(Marks(T, s.sels, now, 0)) >= Sum(Marks(T, s.sels, now - 1, 0))
\* boxes never leave the run they mark, and the whole selection is reached in the end
Inside == \A q \in 1..Len(s.sels) : now >= s.sels[q].t + s.sels[q].sweep => Reached(T, s.sels[q], now) = Covered(T[s.sels[q].k], s.sels[q].a, s.sels[q].b)
Standing == s.shown => CaretBox(T[s.k], s.off, "bar", 200).h > 0
Export == (Show /\ now = 0 /\ i = 1) => PrintT("@@" \o ToJson(evs))
=============================================================================
