------------------------------ MODULE TrimTrace ------------------------------
(* Accepts probes of a real trimmed document iff each shows, on every track,
   what the original showed at the moment Src names - as observed on the
   original, and (for linear and stepped tracks) as the stop lists say.
   A track of mode "seen" has no stop list here: only the comparison counts.  *)
EXTENDS Trim, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<doc, now, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ TrimInit(Traces[tr].cfg)
Near(a, b, e) == a - b <= e /\ b - a <= e
Agree(k) == LET t == doc.tracks[k] m == E.m[k] IN
  /\ m = Src(t, E.t)
  /\ Near(E.v[k], E.o[k], E.tol)
  /\ t.mode \in {"lin", "step"} => Near(E.o[k], Value(t, m), E.tol)
Probe == /\ l <= Len(Ev) /\ E.e = "probe" /\ E.t >= now /\ Len(E.v) = Len(doc.tracks)
         /\ \A k \in 1..Len(doc.tracks) : Agree(k)
         /\ now' = E.t /\ l' = l + 1 /\ UNCHANGED <<doc, tr>>
\* the document must still be well-formed: every animated name is defined once
Wellformed == l <= Len(Ev) /\ E.e = "doc" /\ E.dups = 0 /\ l' = l + 1 /\ UNCHANGED <<doc, now, tr>>
Next == Probe \/ Wellformed
Spec == Init /\ [][Next]_tvars
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([k \in 1..Len(Traces) |-> TLCGet(k)]))
=============================================================================
