------------------------------ MODULE NamesTrace ------------------------------
(* A combined document read back.  cfg.docs are the sources as written.
   el: an element and what it means there: the rules that apply to it, the
       element each of its references leads to
   run: a rule and the animations it starts      same: a text or value that is
   not a name, as it was and as it is            end: ids defined twice, elements missing *)
EXTENDS Names, Json, IOUtils, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Docs == Traces[tr].cfg.docs
Init == tr \in 1..Len(Traces) /\ l = 1
D == Docs[E.d]
Go == l' = l + 1 /\ UNCHANGED tr
DoEl == /\ E.e = "el" /\ LET e == D.els[CHOOSE i \in 1..Len(D.els) : D.els[i].l = E.l] IN
          {E.rules[i] : i \in 1..Len(E.rules)} = RulesOf(D, e) /\ E.refs = RefsOf(D, e) /\ Go
DoRun == /\ E.e = "run" /\ LET r == D.rules[CHOOSE i \in 1..Len(D.rules) : D.rules[i].r = E.r] IN E.anims = RunsOf(D, r) /\ Go
DoSame == E.e = "same" /\ E.was = E.is /\ Go
DoEnd == E.e = "end" /\ E.twice = 0 /\ E.els = [i \in 1..Len(Docs) |-> Len(Docs[i].els)] /\ Go
Next == l <= Len(Ev) /\ (DoEl \/ DoRun \/ DoSame \/ DoEnd)
Spec == Init /\ [][Next]_vars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
