------------------------------- MODULE ServeMC -------------------------------
(* every schedule of up to three requests with up to two failures or deaths;
   exports the histories (what is asked, when, and what breaks where)          *)
EXTENDS Serve, TLC, Json
CONSTANTS N, Kinds, MaxBad, MaxCalls
VARIABLES hist, bad, calls
mvars == <<vars, hist, bad, calls>>
Init == /\ \E r \in [1..N -> Kinds] : ServeInit([i \in 1..N |-> [k |-> r[i]]])
        /\ hist = <<>> /\ bad = 0 /\ calls = 0
Len3(i) == IF req[i].k = "timing" THEN 2 ELSE 3
Note(x) == hist' = Append(hist, x)
Waiting == {i \in 1..N : st[i] = "sent"}
\* requests are sent in order of their number
Arrive == \E i \in 1..N : (\A j \in 1..N : j < i => st[j] # "new") /\ Send(i) /\ Note(<<"send", req[i].k, Cardinality({j \in 1..N : st[j] \in {"sent", "run", "done", "failed"}})>>) /\ UNCHANGED <<bad, calls>>
Get == \E w \in Waiting : p = "none" /\ ((b = "none" /\ Launch(TRUE, w)) \/ Open(TRUE, FALSE, w)) /\ Note(<<"ok">>) /\ UNCHANGED <<bad, calls>>
GetFails == bad < MaxBad /\ \E w \in Waiting : p = "none" /\ ((b = "none" /\ Launch(FALSE, w)) \/ (b = "up" /\ Open(FALSE, FALSE, w))) /\ Note(<<"getfail">>) /\ bad' = bad + 1 /\ UNCHANGED calls
Do == \E i \in 1..N : Call(i, Len3(i)) /\ Note(<<"ok">>) /\ UNCHANGED bad /\ calls' = calls + 1
Refused == \E i \in 1..N : p = "up" /\ bad < MaxBad /\ ((CallFails(i, FALSE, FALSE) /\ Note(<<"plain">>)) \/ (CallFails(i, TRUE, FALSE) /\ Note(<<"crash">>)) \/ (CallFails(i, TRUE, TRUE) /\ Note(<<"bgone">>))) /\ bad' = bad + 1 /\ UNCHANGED calls
Notice == \E i \in 1..N : p = "down" /\ CallFails(i, TRUE, b = "down") /\ Note(<<"ok">>) /\ UNCHANGED <<bad, calls>>
\* a browser found dead when a page is wanted
NoticeB == \E w \in Waiting : b = "down" /\ p = "none" /\ Open(FALSE, TRUE, w) /\ Note(<<"ok">>) /\ UNCHANGED <<bad, calls>>
Dies == cur = 0 /\ Waiting = {} /\ bad < MaxBad /\ ((PageDies /\ Note(<<"idle", "page">>)) \/ (BrowserDies /\ Note(<<"idle", "browser">>))) /\ bad' = bad + 1 /\ UNCHANGED calls
Reply == \E i \in 1..N : st[i] \in {"done", "failed"} /\ Answer(i) /\ UNCHANGED <<hist, bad, calls>>
Next == Arrive \/ Get \/ GetFails \/ Do \/ Refused \/ Notice \/ NoticeB \/ Dies \/ Reply
Spec == Init /\ [][Next]_mvars
AllAnswered == \A i \in 1..N : st[i] = "answered"
Export == AllAnswered => PrintT("@@" \o ToJson(hist))
\* whatever breaks, a request that is waiting can still get a page and be served
NoJam == (cur = 0 /\ Waiting # {}) => ENABLED (Get \/ Do \/ Notice \/ NoticeB)
Fair == Spec /\ WF_mvars(Arrive) /\ WF_mvars(Get) /\ WF_mvars(Do) /\ WF_mvars(Notice) /\ WF_mvars(NoticeB) /\ WF_mvars(Reply)
Served == <>AllAnswered
View == <<vars, bad, hist>>
=============================================================================
