------------------------------ MODULE FramesMC ------------------------------
EXTENDS Frames, Json
CONSTANTS HoldSet, TrSet, KindSet, MaxN, Cycles
VARIABLES now, seen
mcvars == <<plan, i, ph, base, share, now, seen>>

FrameSet == [hold : HoldSet, tr : TrSet, kind : KindSet]
Last == {[hold |-> h, tr |-> t, kind |-> k] : h \in HoldSet, t \in TrSet, k \in KindSet \cap {"cut", "crossfade", "push-left"}}
Plans == UNION {
  {[frames |-> <<f>>, loopFade |-> lf] : f \in Last, lf \in BOOLEAN},
  {[frames |-> <<f, g>>, loopFade |-> lf] : f \in FrameSet, g \in Last, lf \in BOOLEAN},
  IF MaxN >= 3 THEN {[frames |-> <<f, g, h>>, loopFade |-> FALSE] : f \in FrameSet, g \in FrameSet, h \in Last} ELSE {} }

Init == \E p \in Plans : FramesInit(p) /\ now = 0 /\ seen = <<>>
Tick == /\ now < PhaseEnd /\ now' = now + 1 /\ UNCHANGED vars /\ UNCHANGED seen
NextFrame == seen' = IF i' # i \/ (ph = "trans" /\ ph' = "hold") \/ (ph = "hold" /\ ph' = "hold") THEN Append(seen, i) ELSE seen
Due == now = PhaseEnd /\ now < Cycles * Period
DoBeginTransition == Due /\ BeginTransition /\ NextFrame /\ UNCHANGED now
DoCut == Due /\ Cut /\ NextFrame /\ UNCHANGED now
DoEndTransition == Due /\ EndTransition /\ NextFrame /\ UNCHANGED now
Next == Tick \/ DoBeginTransition \/ DoCut \/ DoEndTransition
Spec == Init /\ [][Next]_mcvars

InPhase == base <= now /\ now <= PhaseEnd
InOrder == \A n \in 1..Len(seen) : seen[n] = ((n - 1) % N) + 1
PeriodExact == Len(seen) = N => base = Period \/ (base > Period)
Export == (now = 0 /\ seen = <<>> /\ ph = "hold") => PrintT("@@" \o ToJson(plan))
=============================================================================
