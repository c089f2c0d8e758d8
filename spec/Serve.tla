-------------------------------- MODULE Serve --------------------------------
(* A local server that lends one browser page to its requests.  Requests arrive
   in any order; the ones that need the page take it one at a time and each
   plays its whole script on it; any call may fail, the page or the whole browser
   may die at any moment, and what died is replaced before the next request that
   needs it.  Every request is answered, and nothing but the page is shared.    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES req,     \* req[i]: what is asked (fixed)
          st,      \* st[i] \in {"new","sent","run","done","failed","answered"}
          cur, pos,\* who holds the page (0: nobody) and how many calls it has made
          b, p     \* browser and page: "none" | "up" | "down" (dead, not yet noticed)
vars == <<req, st, cur, pos, b, p>>
Ids == DOMAIN req
ServeInit(r) == req = r /\ st = [i \in DOMAIN r |-> "new"] /\ cur = 0 /\ pos = 0 /\ b = "none" /\ p = "none"
Send(i) == st[i] = "new" /\ st' = [st EXCEPT ![i] = "sent"] /\ UNCHANGED <<req, cur, pos, b, p>>
\* ---- getting a page; w is the request on whose behalf (known only if it fails)
Fails(w) == st' = [st EXCEPT ![w] = "failed"]
Launch(ok, w) == 
  /\ cur = 0 /\ p # "up" /\ st[w] = "sent"
  /\ IF ok THEN b' = "up" /\ p' = "none" /\ UNCHANGED st ELSE b' = "none" /\ p' = "none" /\ Fails(w)
  /\ UNCHANGED <<req, cur, pos>>
Open(ok, died, w) == 
  /\ cur = 0 /\ b # "none" /\ (ok => b = "up") /\ st[w] = "sent"
  /\ IF ok THEN p' = "up" /\ UNCHANGED <<st, b>> ELSE p' = "none" /\ b' = (IF b = "down" \/ died THEN "none" ELSE b) /\ Fails(w)
  /\ UNCHANGED <<req, cur, pos>>
\* a context without its page yet
Half(w) == 
  /\ cur = 0 /\ b = "up" /\ st[w] = "sent" /\ p' = "none" /\ UNCHANGED <<req, st, cur, pos, b>>
\* ---- one call of the request holding the page (the first call takes it)
Call(i, n) == 
  /\ (cur = i \/ (cur = 0 /\ st[i] = "sent" /\ pos = 0)) /\ p = "up"
  /\ IF pos + 1 = n THEN st' = [st EXCEPT ![i] = "done"] /\ cur' = 0 /\ pos' = 0
     ELSE st' = [st EXCEPT ![i] = "run"] /\ cur' = i /\ pos' = pos + 1
  /\ UNCHANGED <<req, b, p>>
\* a call that fails ends the request; if that was because something died, it is noticed
CallFails(i, page, browser) == 
  /\ (cur = i \/ (cur = 0 /\ st[i] = "sent" /\ pos = 0)) /\ p # "none"
  /\ Fails(i) /\ cur' = 0 /\ pos' = 0 /\ UNCHANGED req
  /\ p' = (IF page \/ browser \/ p = "down" THEN "none" ELSE p) /\ b' = (IF browser THEN "down" ELSE b)
Abort(i) == cur = i /\ Fails(i) /\ cur' = 0 /\ pos' = 0 /\ UNCHANGED <<req, b, p>>
PageDies == p = "up" /\ p' = "down" /\ UNCHANGED <<req, st, cur, pos, b>>
BrowserDies == b = "up" /\ b' = "down" /\ p' = (IF p = "up" THEN "down" ELSE p) /\ UNCHANGED <<req, st, cur, pos>>
Answer(i) == st[i] \in {"sent", "done", "failed"} /\ st' = [st EXCEPT ![i] = "answered"] /\ UNCHANGED <<req, cur, pos, b, p>>
\* ---- arithmetic of what is asked; lengths are in tenths of a pixel
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
Round10(x) == (x + 5) \div 10
Even(n) == 2 * ((n + 1) \div 2)
EvenDown(n) == Max(2, 2 * (n \div 2))
\* the part of a wanted crop that lies on a w x h frame (tenths); <<>> if nothing of it does
Clip(c, w, h) == IF c = <<>> THEN <<>> ELSE
  LET x0 == Max(0, Min(c[1], 10 * w)) y0 == Max(0, Min(c[2], 10 * h)) x1 == Max(0, Min(c[1] + c[3], 10 * w)) y1 == Max(0, Min(c[2] + c[4], 10 * h))
  IN IF x1 > x0 /\ y1 > y0 THEN <<x0, y0, x1 - x0, y1 - y0>> ELSE <<>>
\* a video frame needs whole, even measures
EvenClip(c, w, h) == LET k == Clip(c, w, h) IN IF k = <<>> THEN <<>> ELSE
  LET x == Min(k[1] \div 10, w - 2) y == Min(k[2] \div 10, h - 2)
  IN <<10 * x, 10 * y, 10 * EvenDown(Min(k[3] \div 10, w - x)), 10 * EvenDown(Min(k[4] \div 10, h - y))>>
VideoFrames(r) == LET d == Max(r.t0, r.t1) - Min(r.t0, r.t1) IN Max(1, (3 * d + 50) \div 100)
\* the calls a request makes on the page: operation and arguments (times in thirds of a ms)
Script(r) ==
  CASE r.k = "frame" -> LET w == Max(1, Round10(r.w)) h == Max(1, Round10(r.h)) IN <<<<"size", <<w, h>>>>, <<"content", <<>>>>, <<"seek", <<3 * r.t0>>>>, <<"shot", Clip(r.crop, w, h)>>>>
  [] r.k = "timing" -> <<<<"content", <<>>>>, <<"anims", <<>>>>>>
  [] r.k = "ticket" /\ r.attach -> <<<<"size", <<r.iw, r.ih>>>>, <<"content", <<>>>>, <<"seek", <<3 * r.t0>>>>, <<"shot", <<>>>>>>
  [] r.k = "video" -> LET w == Even(Max(1, Round10(r.w))) h == Even(Max(1, Round10(r.h))) n == VideoFrames(r) t == 3 * Min(r.t0, r.t1) IN
       <<<<"size", <<w, h>>>>, <<"content", <<>>>>>> \o [j \in 1..2 * n |-> IF j % 2 = 1 THEN <<"seek", <<t + 100 * ((j - 1) \div 2)>>>> ELSE <<"shot", EvenClip(r.crop, w, h)>>]
  [] OTHER -> <<>>
NeedsPage(r) == r.k \in {"frame", "timing", "video"} \/ (r.k = "ticket" /\ r.attach)
\* ---- what the machine guarantees
OneHolder == cur # 0 => st[cur] = "run" /\ \A i \in Ids : st[i] = "run" => i = cur
OnLivePage == cur # 0 => p # "none"
=============================================================================
