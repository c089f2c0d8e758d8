---------------------------- MODULE AcquireTrace ----------------------------
(* Observations of real acquirers, matched as steps of Acquire at the level of
   what is on disk.
   disk: the state of every final name after an acquirer's step
   ret: acquirer p reported a path ("path"), nothing ("null"), or let an error
        out ("threw");  faulty = it was refused a step or served a bad file
   end: everything is over: number of files beside the final names, and of
        acquirers that died
   call / fresh: the blocking entry point: whether a download was started, what
        it reported and how many warnings it has printed so far               *)
EXTENDS Acquire, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l, latch, warned
tvars == <<vars, tr, l, latch, warned>>
Ev == Traces[tr].ev
E == Ev[l]
Cfg == Traces[tr].cfg
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ latch = FALSE /\ warned = 0
        /\ AcqInit(Traces[tr].cfg.nf, Traces[tr].cfg.disk, 1..Traces[tr].cfg.np, Traces[tr].cfg.served)
Go == l' = l + 1 /\ UNCHANGED tr
Quiet == UNCHANGED <<latch, warned>>
Disk == /\ l <= Len(Ev) /\ E.e = "disk"
        /\ \A f \in 1..nf : IF E.d[f] = disk[f] THEN TRUE ELSE E.d[f] = "good" /\ served = "good"
        /\ disk' = E.d
        /\ \A f \in 1..nf : disk'[f] \in {"none", "old", "good"}
        /\ disk'[nf] = "good" /\ disk[nf] # "good" => Complete(disk')
        /\ UNCHANGED <<nf, tmp, pc, at, ret, served>> /\ Quiet /\ Go
Ret == /\ l <= Len(Ev) /\ E.e = "ret" /\ pc[E.p] # "done"
       /\ \/ E.r = "path" /\ Complete(disk)
          \/ E.r = "null" /\ (E.faulty \/ served # "good")
       /\ ret' = [ret EXCEPT ![E.p] = E.r] /\ pc' = [pc EXCEPT ![E.p] = "done"]
       /\ UNCHANGED <<nf, disk, tmp, at, served>> /\ Quiet /\ Go
End == /\ l <= Len(Ev) /\ E.e = "end" /\ (E.dead = 0 => E.stray = 0)
       /\ (served = "good" /\ ~E.faulty => Complete(disk))
       /\ UNCHANGED vars /\ Quiet /\ Go
\* ---- the blocking entry point: one attempt a process, one warning, never an error
Call == /\ l <= Len(Ev) /\ E.e = "call"
        /\ E.tried = (~Complete(disk) /\ ~latch)
        /\ (E.bad => E.d = disk)
        /\ E.r \in (IF ~Complete(E.d) THEN {"null"} ELSE IF E.failed THEN {"null", "path"} ELSE {"path"})
        /\ latch' = (latch \/ (E.tried /\ E.r = "null")) /\ warned' = (IF latch' THEN 1 ELSE 0) /\ E.warned = warned'
        /\ disk' = E.d /\ UNCHANGED <<nf, tmp, pc, at, ret, served>> /\ Go
Fresh == /\ l <= Len(Ev) /\ E.e = "fresh" /\ latch' = FALSE /\ warned' = 0
         /\ disk' = E.d /\ UNCHANGED <<nf, tmp, pc, at, ret, served>> /\ Go
\* somebody else emptied the directory
Gone == /\ l <= Len(Ev) /\ E.e = "gone" /\ disk' = E.d /\ UNCHANGED <<nf, tmp, pc, at, ret, served>> /\ Quiet /\ Go
Next == Gone \/ Disk \/ Ret \/ End \/ Call \/ Fresh
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
