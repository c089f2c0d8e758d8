------------------------------ MODULE HelperMC ------------------------------
(* every history of a few requests; the histories are replayed on the real channel *)
EXTENDS Helper, TLC, Json
CONSTANTS Deep
VARIABLES hist, can
mvars == <<hvars, hist, can>>
Init == HelpInit /\ hist = <<>> /\ can \in BOOLEAN
Qs == [s : {"ok", "twice", "bye", "broken", "hollow"}, o : {"ok", "fail"}]
Request == Len(hist) < Deep /\ \E q \in Qs : Ask(q, can) /\ hist' = Append(hist, <<q.s, q.o>>) /\ UNCHANGED can
Forget == Len(hist) < Deep /\ Len(hist) > 0 /\ Clear /\ hist' = Append(hist, <<"clear", "">>) /\ UNCHANGED can
Loop == Len(hist) < Deep /\ Len(hist) > 0 /\ Turn /\ hist' = Append(hist, <<"turn", "">>) /\ UNCHANGED can
Next == Request \/ Forget \/ Loop
Spec == Init /\ [][Next]_mvars
View == mvars
Export == (Len(hist) = Deep /\ hist[Deep][1] \notin {"clear", "turn"}) => PrintT("@@" \o ToJson([can |-> can, h |-> hist]))
=============================================================================
