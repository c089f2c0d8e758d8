------------------------------ MODULE ShareTrace ------------------------------
(* The machine runs on the document's images; the real output is then compared
   with it: how many images are written inline, how many copies of each payload
   are left, identifiers, and what is painted at every probed time.           *)
EXTENDS Share, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<src, out, defs, k, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Cfg == Traces[tr].cfg
Init == tr \in 1..Len(Traces) /\ l = 1 /\ ShareInit(Traces[tr].cfg.images)
Work == ~Done /\ ShareNext /\ UNCHANGED <<tr, l>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ Done /\ l' = l + 1 /\ UNCHANGED <<src, out, defs, k, tr>>
Inline == Cardinality({i \in 1..Len(out) : out[i].def = 0})
\* documents of the real renderer have no image list: Cfg.images is empty and only the comparisons count
Listed == Len(src) > 0
Result == /\ Is("result") /\ E.dups = 0 /\ E.dangling = 0 /\ E.again
          /\ Listed => /\ E.images = Inline + Len(defs) /\ E.uses = Len(out) - Inline
                       /\ E.same = (defs = <<>>)
Painted == Is("painted") /\ E.after = E.before
Next == Work \/ Result \/ Painted
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
