------------------------------- MODULE EmbedTrace -------------------------------
(* Pictures of embedded documents in the host.  cfg.parts are the placements.
   at: a host moment t, the moments of part p's own time that look like what it
       shows then (by itself), whether what runs on a period of its own in it
       looks as it would at t, and whether it may be seen at all
   again: a later turn of the host's loop against the first                      *)
EXTENDS Embed, TLC, Json, IOUtils, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1
P == Traces[tr].cfg.parts[E.p]
Go == l' = l + 1 /\ UNCHANGED tr
DoAt == E.e = "at" /\ Whole(P, E.t) /\ (\E i \in 1..Len(E.looks) : E.looks[i] = Local(P, E.t)) /\ E.free = TRUE /\ Go
\* the host's own loop: one length later it shows the same again
DoAgain == E.e = "again" /\ E.was = E.is /\ Go
Next == l <= Len(Ev) /\ (DoAt \/ DoAgain)
Spec == Init /\ [][Next]_vars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
