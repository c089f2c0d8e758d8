------------------------------ MODULE CullTrace ------------------------------
(* probe: the elements that reach at least 3 px into the viewport at document
   time t (by this machine) are among those really painted.  paint: everything
   the document without the pass paints inside the viewport is painted, in the
   same place, by the document with it.                                       *)
EXTENDS Cull, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<els, loop, view, now, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Cfg == Traces[tr].cfg
Rng(s) == {s[i] : i \in 1..Len(s)}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ CullInit(Traces[tr].cfg.els, Traces[tr].cfg.loop, Traces[tr].cfg.view)
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr
Probe == Is("probe") /\ E.t > now /\ Tick(E.t - now) /\ {k \in 1..Len(els) : Seen(k, E.t, 3)} \subseteq Rng(E.got)
Paint == Is("paint") /\ Rng(E.need) \subseteq Rng(E.got) /\ UNCHANGED vars
Next == Probe \/ Paint
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
