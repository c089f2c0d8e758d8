------------------------------- MODULE Acquire -------------------------------
(* Acquiring a downloaded helper: several processes fetch the same set of files
   (the last one is the program itself, the others are what it needs), verify
   each against its published checksum, write a private copy, make it executable
   and publish it under its final name.  Any step may fail, any process may die.
   What other processes may see at the final names is only ever nothing, what was
   there before, or the verified file; and the program only after its companions. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nf,      \* number of files; file nf is the program
          disk,    \* final names: "none" | "old" | "part" | "bad" | "noexec" | "good"
          tmp,     \* tmp[p][f]: private copy "none" | "part" | "full" | "exec"
          pc, at, ret, served
vars == <<nf, disk, tmp, pc, at, ret, served>>
Procs == DOMAIN pc
There(s) == s \in {"old", "good"}
Complete(d) == \A f \in 1..nf : There(d[f])
AcqInit(n, d, procs, sv) == /\ nf = n /\ disk = d /\ served = sv
  /\ tmp = [p \in procs |-> [f \in 1..n |-> "none"]] /\ pc = [p \in procs |-> "look"] /\ at = [p \in procs |-> 1] /\ ret = [p \in procs |-> "-"]
Finish(p, r) == pc' = [pc EXCEPT ![p] = "done"] /\ ret' = [ret EXCEPT ![p] = r] /\ UNCHANGED <<at, nf, served>>
Look(p) == pc[p] = "look" /\ IF Complete(disk) THEN Finish(p, "path") /\ UNCHANGED <<disk, tmp>>
                             ELSE pc' = [pc EXCEPT ![p] = "fetch"] /\ UNCHANGED <<nf, disk, tmp, at, ret, served>>
\* nothing is written unless every file arrived and matched its checksum
Fetch(p) == pc[p] = "fetch" /\ IF served = "good" THEN pc' = [pc EXCEPT ![p] = "begin"] /\ UNCHANGED <<nf, disk, tmp, at, ret, served>>
                               ELSE Finish(p, "null") /\ UNCHANGED <<disk, tmp>>
Put(p, s, next) == tmp' = [tmp EXCEPT ![p][at[p]] = s] /\ pc' = [pc EXCEPT ![p] = next] /\ UNCHANGED <<nf, disk, at, ret, served>>
Begin(p) == pc[p] = "begin" /\ Put(p, "part", "fill")
Fill(p) == pc[p] = "fill" /\ Put(p, "full", IF at[p] = nf THEN "mode" ELSE "publish")
Mode(p) == pc[p] = "mode" /\ Put(p, "exec", "publish")
Publish(p) == /\ pc[p] = "publish"
  /\ disk' = [disk EXCEPT ![at[p]] = CASE tmp[p][at[p]] = "part" -> "part" [] at[p] = nf /\ tmp[p][at[p]] # "exec" -> "noexec" [] OTHER -> "good"]
  /\ tmp' = [tmp EXCEPT ![p][at[p]] = "none"]
  /\ IF at[p] = nf THEN pc' = [pc EXCEPT ![p] = "done"] /\ ret' = [ret EXCEPT ![p] = "path"] /\ UNCHANGED <<at, nf, served>>
     ELSE at' = [at EXCEPT ![p] = @ + 1] /\ pc' = [pc EXCEPT ![p] = "begin"] /\ UNCHANGED <<ret, nf, served>>
\* a step that fails ends the attempt, and the attempt takes its private copies with it
Fault(p) == pc[p] \in {"fetch", "begin", "fill", "mode", "publish"} /\ tmp' = [tmp EXCEPT ![p] = [f \in 1..nf |-> "none"]] /\ Finish(p, "null") /\ UNCHANGED disk
Crash(p) == pc[p] \notin {"done", "dead"} /\ pc' = [pc EXCEPT ![p] = "dead"] /\ UNCHANGED <<nf, disk, tmp, at, ret, served>>
Step(p) == Look(p) \/ Fetch(p) \/ Begin(p) \/ Fill(p) \/ Mode(p) \/ Publish(p)
\* ---- what the machine guarantees
Verified == \A f \in 1..nf : disk[f] \in {"none", "old", "good"}
ProgramLast == disk[nf] = "good" => Complete(disk)
PathMeansThere == \A p \in Procs : ret[p] = "path" => Complete(disk)
Tidy == \A p \in Procs : pc[p] = "done" => \A f \in 1..nf : tmp[p][f] = "none"
NeverWorse == [][\A f \in 1..nf : There(disk[f]) => There(disk'[f])]_disk
=============================================================================
