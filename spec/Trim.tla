-------------------------------- MODULE Trim --------------------------------
(* Playback of an animated document and of the document obtained by trimming it
   to a span.  A document is a set of tracks (one animated value each); a track
   is a list of stops <<at, value>> in ms within a run of `dur` ms that begins
   at `delay`.
     loop   repeats for ever with the document's own period
     free   repeats for ever with a period of its own (a blinking caret)
     once   plays once (CSS); sched plays once per showing of the span (SMIL)
   The trimmed document's clock starts at 0; Src maps it to the moment of the
   original that has to be shown.                                             *)
EXTENDS Integers, Sequences
VARIABLES doc, now        \* doc: [tracks, t0, t1, period]; now: trimmed clock, ms
vars == <<doc, now>>
Win == doc.t1 - doc.t0
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* value of a stop list at local time x (mode: lin interpolates, step holds)
At(stops, mode, x) ==
  LET k == MaxOf({j \in 1..Len(stops) : stops[j][1] <= x} \cup {1}) IN
  IF k = Len(stops) \/ mode = "step" \/ stops[k + 1][1] = stops[k][1] THEN stops[k][2]
  ELSE stops[k][2] + ((stops[k + 1][2] - stops[k][2]) * (x - stops[k][1])) \div (stops[k + 1][1] - stops[k][1])
Cyclic(tr) == tr.kind \in {"loop", "free"}
\* what the original shows on a track at original time t
Value(tr, t) ==
  LET lt == t - tr.delay IN
  IF lt < 0 THEN (IF tr.fill = "both" THEN tr.stops[1][2] ELSE tr.base)
  ELSE IF ~Cyclic(tr) /\ lt >= tr.dur THEN (IF tr.fill \in {"both", "freeze"} THEN tr.stops[Len(tr.stops)][2] ELSE tr.base)
  ELSE At(tr.stops, tr.mode, IF Cyclic(tr) THEN lt % tr.dur ELSE lt)
\* the moment of the original the trimmed document owes at its own time t
Src(tr, t) == IF tr.kind \in {"loop", "sched"} THEN doc.t0 + (t % Win) ELSE doc.t0 + t
\* ---- the trimming itself: cut a looping track's stop list to the span
Slice(tr) ==
  LET inner == SelectSeq(tr.stops, LAMBDA s : s[1] > doc.t0 /\ s[1] < doc.t1) IN
  <<<<0, At(tr.stops, tr.mode, doc.t0)>>>> \o [j \in 1..Len(inner) |-> <<inner[j][1] - doc.t0, inner[j][2]>>] \o <<<<Win, At(tr.stops, tr.mode, doc.t1)>>>>
Trimmed(tr, t) == IF tr.kind = "loop" THEN At(Slice(tr), tr.mode, t % Win) ELSE Value(tr, Src(tr, t))
\* ---- transitions
TrimInit(d) == doc = d /\ now = 0
Tick(d) == now' = now + d /\ UNCHANGED doc
\* ---- properties of the design
Faithful == \A k \in 1..Len(doc.tracks) : Trimmed(doc.tracks[k], now) - Value(doc.tracks[k], Src(doc.tracks[k], now)) \in -1..1
InSpan == \A k \in 1..Len(doc.tracks) : doc.tracks[k].kind \in {"loop", "sched"} => Src(doc.tracks[k], now) >= doc.t0 /\ Src(doc.tracks[k], now) < doc.t1
Repeats == \A k \in 1..Len(doc.tracks) : doc.tracks[k].kind \in {"loop", "sched"} => Trimmed(doc.tracks[k], now) = Trimmed(doc.tracks[k], now + Win)
=============================================================================
