----------------------------- MODULE HelperTrace -----------------------------
(* Recorded requests as steps of Helper.
   ask: the request's treatment, what it received ("own", "none"; anything else
   is no behaviour), the processes started so far
   quiet: some time later, the long-lived processes still running               *)
EXTENDS Helper, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<hvars, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == HelpInit /\ tr \in 1..Len(Traces) /\ l = 1
Go == l' = l + 1 /\ UNCHANGED tr
Asked == /\ l <= Len(Ev) /\ E.e = "ask"
         /\ Ask([s |-> E.s, o |-> E.o], Traces[tr].cfg.can)
         /\ E.got = (IF got' = 0 THEN "none" ELSE IF got' = Len(asked') THEN "own" ELSE "other")
         /\ E.serves = serves' /\ E.ones = ones' /\ Go
Cleared == l <= Len(Ev) /\ E.e = "clear" /\ Clear /\ Go
Turned == l <= Len(Ev) /\ E.e = "turn" /\ Turn /\ Go
Rest == /\ l <= Len(Ev) /\ E.e = "rest" /\ E.left <= (IF up THEN 1 ELSE 0)
        /\ UNCHANGED hvars /\ Go
Next == Asked \/ Cleared \/ Turned \/ Rest
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
