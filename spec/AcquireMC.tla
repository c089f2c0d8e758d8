------------------------------ MODULE AcquireMC ------------------------------
(* every interleaving of two acquirers with at most one fault or crash each;
   exports the schedules the real code is driven through                       *)
EXTENDS Acquire, TLC, Json
CONSTANT NF, NP, MaxSw   \* MaxSw: context switches recorded (0: every interleaving, none recorded)
VARIABLE hist, bad
mvars == <<vars, hist, bad>>
Disks == {[f \in 1..NF |-> "none"], [f \in 1..NF |-> "old"], [f \in 1..NF |-> IF f = NF THEN "old" ELSE "none"], [f \in 1..NF |-> IF f = 1 /\ NF > 1 THEN "good" ELSE "none"]}
Init == /\ \E d \in Disks, sv \in {"good", "short"} : AcqInit(NF, d, 1..NP, sv)
        /\ hist = <<disk, served>> /\ bad = 0
Switches == Cardinality({i \in 4..Len(hist) : hist[i][1] # hist[i - 1][1]})
Note(p, k) == IF MaxSw = 0 THEN UNCHANGED hist
              ELSE hist' = Append(hist, <<p, k>>) /\ (Len(hist) > 2 /\ hist[Len(hist)][1] # p => Switches < MaxSw \/ pc[hist[Len(hist)][1]] \in {"done", "dead"})
Go == \E p \in 1..NP : Step(p) /\ Note(p, "ok") /\ UNCHANGED bad
Fail == bad < 1 /\ \E p \in 1..NP : Fault(p) /\ Note(p, "fault") /\ bad' = bad + 1
Die == bad < 1 /\ \E p \in 1..NP : Crash(p) /\ Note(p, "crash") /\ bad' = bad + 1
Next == Go \/ Fail \/ Die
Spec == Init /\ [][Next]_mvars
Export == (MaxSw > 0 /\ \A p \in 1..NP : pc[p] \in {"done", "dead"}) => PrintT("@@" \o ToJson(hist))
NeverWorseHere == [][\A f \in 1..nf : There(disk[f]) => There(disk'[f])]_mvars
=============================================================================
