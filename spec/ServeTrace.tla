------------------------------ MODULE ServeTrace ------------------------------
(* Observations of the real local servers, matched as steps of Serve.
   send: request i was sent        launch/context/page/call: what was asked of
   the browser and whether it failed (bad: "" | "plain" | "page" | "browser" |
   "closed")       death: the page or browser died while nobody used it
   resp: the answer to request i   end: what is left when everything is over   *)
EXTENDS Serve, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
C == Traces[tr].cfg
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ ServeInit(Traces[tr].cfg.req)
Is(e) == l <= Len(Ev) /\ E.e = e
Go == l' = l + 1 /\ UNCHANGED tr
Chrom == {i \in Ids : NeedsPage(req[i]) /\ st[i] = "sent"}
DoSend == Is("send") /\ Send(E.i) /\ Go
DoLaunch == Is("launch") /\ (\E w \in Chrom : Launch(E.bad = "", w)) /\ Go
DoContext == Is("context") /\ (\E w \in Chrom : IF E.bad = "" THEN Half(w) ELSE Open(FALSE, E.bad \in {"browser", "closed"}, w)) /\ Go
DoPage == Is("page") /\ (\E w \in Chrom : Open(E.bad = "", E.bad \in {"browser", "closed"}, w)) /\ Go
DoCall == /\ Is("call") /\ Go
  /\ \E i \in Ids : /\ NeedsPage(req[i])
       /\ LET s == Script(req[i]) IN /\ pos + 1 <= Len(s) /\ s[pos + 1] = <<E.op, E.a>> /\ (E.op = "content" => E.i = i)
                                      /\ IF E.bad = "" THEN Call(i, Len(s)) ELSE CallFails(i, E.bad \in {"page", "closed"}, E.bad = "browser")
DoDeath == Is("death") /\ (IF E.what = "page" THEN PageDies ELSE BrowserDies) /\ Go
\* an encoder that gave up takes its request with it, at any point of it
Gives == l <= Len(Ev) /\ cur # 0 /\ req[cur].k = "video" /\ req[cur].ff # "ok" /\ Abort(cur) /\ UNCHANGED <<tr, l>>
\* ---- answers
R == req[E.i]
Page == C.srv = "scrubber"
Files == {"/expected.png", "/actual.png", "/actual.svg", "/diff.png"}
RawStatus == IF Page THEN (IF R.m = "GET" /\ R.path \in {"/", "/index.html", "/client.js"} THEN 200 ELSE 404)
             ELSE IF R.path \in {"/", "/index.html", "/client.js"} \cup Files THEN 200 ELSE 404
RawBody == IF RawStatus = 404 THEN "nothing" ELSE IF R.m = "HEAD" THEN "empty" ELSE IF R.path = "/client.js" THEN "client" ELSE IF R.path \in Files THEN R.path ELSE "shell"
Said(i) == CASE st[i] = "failed" -> 500 [] st[i] = "done" -> 200 [] OTHER -> 0
Right ==
  CASE R.k = "raw" -> E.status = RawStatus /\ ((RawStatus = 404 /\ R.m = "HEAD") \/ E.body = RawBody) /\ st[E.i] = "sent"
  [] R.k = "huge" -> E.status \in {0, 400, 413, 500}
  [] R.k = "cutoff" -> E.status = 0
  [] R.k = "ticket" /\ ~C.review -> E.status = 404 /\ st[E.i] = "sent"
  [] R.bad -> E.status = 400 /\ st[E.i] = "sent"
  [] R.k = "ticket" /\ ~R.attach -> E.status = 200 /\ E.own /\ ~E.png
  [] R.k = "ticket" -> E.status = 200 /\ st[E.i] \in {"done", "failed"} /\ E.own /\ E.png = (st[E.i] = "done" /\ ~R.nodir)
  [] R.k = "trim" -> E.status = 200 /\ E.box = (LET k == Clip(R.crop, R.iw, R.ih) IN IF k = <<>> THEN <<0, 0, 10 * R.iw, 10 * R.ih>> ELSE k)
  [] R.k = "video" /\ R.t0 = R.t1 -> E.status = 400 /\ st[E.i] = "sent"
  [] R.k = "video" -> \/ (R.ff = "ok" /\ E.status = Said(E.i) /\ (E.status = 200 => E.own))
                      \/ (R.ff # "ok" /\ E.status = 500)
  [] R.k = "timing" -> E.status = Said(E.i) /\ (E.status = 200 => E.d = <<R.period, R.iw, R.ih>>)
  [] R.k = "frame" -> E.status = Said(E.i) /\ (E.status = 200 => E.own)
DoResp == Is("resp") /\ Right /\ (st[E.i] \in {"sent", "done", "failed"}) /\ Answer(E.i) /\ Go
Tickets == {i \in Ids : req[i].k = "ticket" /\ C.review /\ ~req[i].bad}
\* nothing lost, nothing else touched, nothing left running
DoEnd == /\ Is("end") /\ (\A i \in Ids : st[i] = "answered") /\ E.tickets = Cardinality(Tickets) /\ E.lost = 0 /\ E.stray = 0 /\ E.temps = 0 /\ E.procs = 0 /\ E.live = 0 /\ E.elsewhere = FALSE /\ UNCHANGED vars /\ Go
Next == DoSend \/ DoLaunch \/ DoContext \/ DoPage \/ DoCall \/ DoDeath \/ Gives \/ DoResp \/ DoEnd
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
