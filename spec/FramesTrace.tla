---------------------------- MODULE FramesTrace ----------------------------
(* Accepts a recorded sequence of probes of a real generated SVG iff it is a
   behaviour of Frames.  Times are in 1/10 ms. *)
EXTENDS Frames, Json, IOUtils, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<plan, i, ph, base, share, tr, l>>
Ev == Traces[tr].ev
E(n) == Ev[n]
Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ FramesInit(Traces[tr].cfg)
Due == l <= Len(Ev) /\ E(l).t >= PhaseEnd      \* the phase ends before the next probe
Silent == Due /\ (BeginTransition \/ Cut \/ EndTransition) /\ UNCHANGED <<tr, l>>
Is(e) == l <= Len(Ev) /\ E(l).e = e /\ l' = l + 1 /\ UNCHANGED tr
Probe == /\ Is("probe") /\ ~Due
         /\ IF ph = "hold" THEN SeenInHold(E(l).q) /\ share' = 0
            ELSE /\ SeenInTrans(E(l).q)
                 /\ share' = IF i = N THEN 0 ELSE Taken(E(l).q, Succ(i))
         /\ UNCHANGED <<plan, i, ph, base>>
\* a probe taken within the documented rounding distance of a cut boundary
Seam == /\ Is("seam") /\ ~Due
        /\ SeenAtSeam(E(l).q, E(l).a, E(l).b)
        /\ E(l).b = Succ(E(l).a) /\ Family(E(l).a) = "cut"
        /\ UNCHANGED vars
\* the document loops with exactly this period
\* (durations are printed to a hundredth of a second)
Loops == /\ Is("period") /\ E(l).ms10 - Period \in -51..51 /\ UNCHANGED vars
Next == Silent \/ Probe \/ Seam \/ Loops
Spec == Init /\ [][Next]_tvars
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([k \in 1..Len(Traces) |-> TLCGet(k)]))
=============================================================================
