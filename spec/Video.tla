-------------------------------- MODULE Video --------------------------------
(* Export of an animation to video: a browser is opened, the document loaded and
   its timings read, then every frame is shown, photographed and handed to the
   encoder, and everything is released whatever happens.                       *)
EXTENDS Integers, Sequences
VARIABLES stage,     \* "new" "browser" "context" "page" "loaded" "timed" "shooting" "over"
          total,     \* frames called for (known once timed)
          shot,      \* frames photographed
          sent,      \* frames handed to the encoder
          enc,       \* "none" "on" "died" "done"
          open,      \* the browser is open
          failed     \* something has gone wrong
vvars == <<stage, total, shot, sent, enc, open, failed>>
VidInit == stage = "new" /\ total = 0 /\ shot = 0 /\ sent = 0 /\ enc = "none" /\ open = FALSE /\ failed = FALSE
Order == <<"new", "browser", "context", "page", "loaded", "timed">>
Succ(s) == Order[(CHOOSE i \in 1..5 : Order[i] = s) + 1]
Open == /\ stage = "new" /\ ~failed /\ stage' = "browser" /\ open' = TRUE /\ UNCHANGED <<total, shot, sent, enc, failed>>
Set == /\ stage \in {"browser", "context", "page"} /\ ~failed /\ stage' = Succ(stage) /\ UNCHANGED <<total, shot, sent, enc, open, failed>>
Time(n) == /\ stage = "loaded" /\ ~failed /\ stage' = "timed" /\ total' = n /\ UNCHANGED <<shot, sent, enc, open, failed>>
\* the next frame at its own moment
Shoot == /\ stage = "timed" /\ ~failed /\ shot < total /\ shot' = shot + 1 /\ UNCHANGED <<stage, total, sent, enc, open, failed>>
Encode == /\ enc = "none" /\ stage = "timed" /\ ~failed /\ enc' = "on" /\ UNCHANGED <<stage, total, shot, sent, open, failed>>
Send == /\ enc = "on" /\ ~failed /\ sent < shot /\ sent' = sent + 1 /\ UNCHANGED <<stage, total, shot, enc, open, failed>>
EncoderDies == /\ enc = "on" /\ enc' = "died" /\ failed' = TRUE /\ UNCHANGED <<stage, total, shot, sent, open>>
Fault == /\ stage # "over" /\ ~failed /\ failed' = TRUE /\ UNCHANGED <<stage, total, shot, sent, enc, open>>
\* the encoder is told there is no more, or is stopped
Seal == /\ enc = "on" /\ (failed \/ (sent = total /\ stage = "timed")) /\ enc' = "done" /\ UNCHANGED <<stage, total, shot, sent, open, failed>>
Close == /\ open /\ enc # "on" /\ (failed \/ enc = "done") /\ open' = FALSE /\ UNCHANGED <<stage, total, shot, sent, enc, failed>>
Report == /\ ~open /\ enc # "on" /\ stage # "over" /\ (failed \/ enc = "done") /\ stage' = "over" /\ UNCHANGED <<total, shot, sent, enc, open, failed>>
\* ---- how long, how many, how large
Cap == 600000
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == IF a > Cap \/ b > Cap THEN Cap + 1 ELSE LET q == b \div Gcd(a, b) IN IF q > Cap \div a THEN Cap + 1 ELSE a * q
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Ends(_), Cycle(_)
Ends(as) == IF as = <<>> THEN 0 ELSE Max2(IF Head(as).loops THEN 0 ELSE Head(as).end, Ends(Tail(as)))
Cycle(as) == IF as = <<>> THEN 0 ELSE LET c == Cycle(Tail(as)) IN IF ~Head(as).loops \/ Head(as).per = 0 THEN c ELSE IF c = 0 THEN Head(as).per ELSE Lcm(Head(as).per, c)
Length(as, given) == IF given > 0 THEN given ELSE Max2(Ends(as), Cycle(as))
Refused(as, given) == given = 0 /\ (Length(as, 0) = 0 \/ Length(as, 0) > Cap)
\* fps in hundredths
Count(n, ms, fps) == n >= 1 /\ (n = 1 \/ (n * 100000 - ms * fps <= 50000 /\ ms * fps - n * 100000 <= 50000)) /\ (n = 1 => ms * fps <= 150000)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(got, num, den) == \* got = num / den, rounded to an even number of at least 2
  got % 2 = 0 /\ got >= 2 /\ (2 * Abs(got * den - num) <= 3 * den \/ (got = 2 /\ num < 2 * den))
\* nw nh (hundredths) into mw x mh (0: no bound)
Fits(w, h, nw, nh, mw, mh) ==
  IF nw = 0 THEN Near(w, mw, 1) /\ Near(h, mh, 1)
  ELSE IF mw = 0 /\ mh = 0 THEN Near(w, nw, 100) /\ Near(h, nh, 100)
  ELSE IF mh = 0 \/ (mw > 0 /\ mw * nh <= mh * nw) THEN Near(w, mw, 1) /\ Near(h, nh * mw, nw)
  ELSE Near(h, mh, 1) /\ Near(w, nw * mh, nh)
\* ---- what must hold
Once == sent <= shot /\ shot <= Max2(total, 0)
Whole == (stage = "over" /\ ~failed) => (sent = total /\ shot = total /\ enc = "done")
Released == stage = "over" => (~open /\ enc # "on")
Ends2 == <>(stage = "over")
=============================================================================
