----------------------------- MODULE DifferTrace -----------------------------
EXTENDS Differ, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<old, new, pairs, at, phase, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Start(Traces[tr].cfg.old, Traces[tr].cfg.new)
Work == ~Done /\ DiffNext /\ UNCHANGED <<tr, l>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ Done /\ l' = l + 1 /\ UNCHANGED vars /\ UNCHANGED tr
Set(q) == {q[i] : i \in 1..Len(q)}
\* every element of either tree is listed once, under the right kind, with the right partner and shift
Listed == /\ Is("diff") /\ E.intact
          /\ Len(E.pairs) = Cardinality(pairs)
          /\ {[o |-> q.o, n |-> q.n, k |-> q.k] : q \in Set(E.pairs)} = pairs
          /\ \A q \in Set(E.pairs) : q.k # "modified" => <<q.dx, q.dy>> = Drift(q.o, q.n)
          /\ Len(E.removed) = Cardinality(FreeOld) /\ Set(E.removed) = FreeOld
          /\ Len(E.added) = Cardinality(FreeNew) /\ Set(E.added) = FreeNew
          /\ E.named /\ E.filtered
Dominant == /\ Is("dominant")
            /\ IF Shifted = {} THEN ~E.any
               ELSE E.any /\ E.share = (1000 * Most) \div Cardinality(Shifted)
                    /\ \E p \in Shifted : Peers(p) = Most /\ Shift(p) = <<Round(E.dx), Round(E.dy)>>
Built == Is("built") /\ E.intact /\ E.any = Worthwhile
Opens == Is("opens") /\ OpensRight(Set(E.boxes))
Runs_ == Is("runs") /\ Runs(Set(E.boxes))
Closes == Is("closes") /\ ClosesRight(Set(E.boxes))
Next == Work \/ Listed \/ Dominant \/ Built \/ Opens \/ Runs_ \/ Closes
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
