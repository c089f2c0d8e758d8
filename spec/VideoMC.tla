------------------------------- MODULE VideoMC -------------------------------
(* every place a failure can strike an export of up to MaxN frames; the places are exported *)
EXTENDS Video, TLC, Json
CONSTANT MaxN
VARIABLE at
mvars == <<vvars, at>>
Init == VidInit /\ at = ""
Work == (Open \/ Set \/ (\E n \in 1..MaxN : Time(n)) \/ Shoot \/ Encode \/ Send \/ Seal) /\ UNCHANGED at
Trouble == Fault /\ at' = stage
Death == EncoderDies /\ at' = "encoder"
Release == (Close \/ Report) /\ UNCHANGED at
Next == Work \/ Trouble \/ Death \/ Release
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Work) /\ WF_mvars(Release)
Export == stage = "over" => PrintT("@@" \o ToJson([at |-> at, total |-> total, shot |-> shot, sent |-> sent, enc |-> enc]))
=============================================================================
