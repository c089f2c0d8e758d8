------------------------------ MODULE AnimTrace ------------------------------
(* see: the matrix and opacity with which element k is really painted at document
   time t (thousandths / tenths of px), within the tolerance of the trace;
   gone: it paints nothing then.                                              *)
EXTENDS Anim, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<els, tabs, loop, now, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Cfg == Traces[tr].cfg
Init == tr \in 1..Len(Traces) /\ l = 1 /\ AnimInit(Traces[tr].cfg.els, Traces[tr].cfg.tabs, Traces[tr].cfg.loop)
Near(a, b, d) == a - b <= d /\ b - a <= d
See == /\ l <= Len(Ev) /\ E.e = "see" /\ E.t >= now /\ Tick(E.t - now)
       /\ LET m == Place(E.k, E.t) IN /\ Near(m.s, E.s, Cfg.tols) /\ Near(m.o, E.o, Cfg.tols)
                                      /\ Near(m.x, E.x, Cfg.tolx) /\ Near(m.y, E.y, Cfg.tolx)
       /\ l' = l + 1 /\ UNCHANGED tr
\* an element that paints nothing may only be a fully transparent one
Gone == /\ l <= Len(Ev) /\ E.e = "gone" /\ E.t >= now /\ Tick(E.t - now)
        /\ Place(E.k, E.t).o <= Cfg.tols
        /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][See \/ Gone]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
