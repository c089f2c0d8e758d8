----------------------------- MODULE ScrollTrace -----------------------------
(* Accepts what the real executor recorded for a script iff the script machine
   can produce it: every landing with its offset, start and end time, easing and
   content; and the final outcome.                                            *)
EXTENDS Scroll, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l, owed      \* owed: declared pause time since the start
tvars == <<page, prog, speed, pos, stack, op, now, fail, tr, l, owed>>
Ev == Traces[tr].ev
E == Ev[l]
Vis == Traces[tr].cfg.vis   \* the page changes during every wait, so every pause is recorded too
Init == tr \in 1..Len(Traces) /\ l = 1 /\ owed = 0 /\ ScrollInit(Traces[tr].cfg)
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr
Silent == (EnterGroup \/ LoopOnce \/ LoopCount \/ LoopUntil \/ BeginScroll \/ Finish) /\ UNCHANGED <<tr, l, owed>>
QuietPause == ~Vis /\ Pause /\ owed' = owed + Node.ms /\ UNCHANGED <<tr, l>>
\* an execution that raised an error returns no recordings: only its outcome is judged
Lost == Ev[1].e = "error"
SilentLand == Lost /\ op.on /\ Land(op.t0 + (IF op.fixed THEN op.ms ELSE (2000 * op.mag + op.pps) \div (2 * op.pps))) /\ UNCHANGED <<tr, l, owed>>
SilentPause == Lost /\ Pause /\ UNCHANGED <<tr, l, owed>>
First == Is("first") /\ l = 1 /\ E.x = 0 /\ E.y = 0 /\ E.start = 0 /\ E.end = 0 /\ E.seenx = 0 /\ E.seeny = 0 /\ UNCHANGED <<svars, owed>>
Seen == E.x = pos'.x /\ E.y = pos'.y /\ E.seenx = E.x /\ E.seeny = E.y /\ E.diffok
Landed == Is("seg") /\ op.on /\ E.start = now /\ Land(E.end) /\ Seen /\ E.ease = op.ease /\ UNCHANGED owed
Paused == Is("seg") /\ Vis /\ E.start = now /\ Pause /\ E.end = now' /\ Seen /\ E.ease = "" /\ owed' = owed + Node.ms
\* the page was really given the time of every pause
Ended == Is("end") /\ stack = <<>> /\ ~fail /\ E.x = pos.x /\ E.y = pos.y /\ E.waited >= owed /\ UNCHANGED <<svars, owed>>
Failed == Is("error") /\ fail /\ E.kind = "ScrollExecutionError" /\ UNCHANGED <<svars, owed>>
Next == Silent \/ SilentLand \/ SilentPause \/ QuietPause \/ First \/ Landed \/ Paused \/ Ended \/ Failed
Spec == Init /\ [][Next]_tvars
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([k \in 1..Len(Traces) |-> TLCGet(k)]))
=============================================================================
