----------------------------- MODULE VideoTrace -----------------------------
(* A recorded export as a behaviour of Video.
   cfg: natural size and bounds, fps (hundredths), given length, animations, what the encoder will do
   open / set / time: the browser's steps      shot: a photograph, with the moment shown (in half frames, thousandths)
   enc: the encoder's start    fault: a step was refused    close, done: as they say
   end: the frames the encoder was given, the pictures kept, what is still running *)
EXTENDS Video, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
tvars == <<vvars, tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Cfg == Traces[tr].cfg
Init == VidInit /\ tr \in 1..Len(Traces) /\ l = 1
Is(k) == l <= Len(Ev) /\ E.e = k
Go == l' = l + 1 /\ UNCHANGED tr
Bad == Refused(Cfg.anims, Cfg.given) \/ Cfg.unsized
TOpen == Is("open") /\ Open /\ ~Cfg.unsized /\ Go
TSet == /\ Is("set") /\ Set /\ E.what = stage'
        /\ stage' = "context" => (Fits(E.w, E.h, Cfg.nw, Cfg.nh, Cfg.mw, Cfg.mh) /\ E.scale = Cfg.scale)
        /\ stage' = "loaded" => E.whole
        /\ Go
\* how many frames will come is told by the end of the recording
TTime == /\ Is("time") /\ Go
         /\ IF Refused(Cfg.anims, Cfg.given) THEN Time(0) ELSE \E n \in 1..Cfg.most : Count(n, Length(Cfg.anims, Cfg.given), Cfg.fps) /\ Time(n)
TShot == /\ Is("shot") /\ Shoot /\ E.settled /\ E.paused /\ E.omit = Cfg.alpha
         /\ Abs(E.lo - (2 * shot + 1) * 1000) <= 2 /\ Abs(E.hi - (2 * shot + 1) * 1000) <= 2
         /\ Go
\* the encoder's start is noticed at the next step after it, which may be the one refused
TEnc == /\ Is("enc") /\ (Encode \/ (failed /\ enc = "none" /\ stage = "timed" /\ shot > 0 /\ enc' = "on" /\ UNCHANGED <<stage, total, shot, sent, open, failed>>)) /\ E.rate = Cfg.fps /\ E.out /\ E.last
        /\ IF Cfg.scale = 100 THEN E.sw = 0 ELSE E.sw = E.w /\ E.sh = E.h
        /\ Go
TFault == Is("fault") /\ Fault /\ Go
\* the frames sent are only seen at the end
TClose == /\ Is("close") /\ open /\ open' = FALSE /\ (failed \/ enc # "none" \/ Bad) /\ UNCHANGED <<stage, total, shot, sent, enc, failed>> /\ Go
Fine == ~failed /\ ~Bad /\ stage = "timed" /\ shot = total /\ Cfg.enc = "ok" /\ enc = "on"
TDone == /\ Is("done") /\ stage # "over" /\ ~open /\ stage' = "over"
         /\ E.ok = Fine /\ (~Fine => (failed \/ Bad \/ Cfg.enc # "ok"))
         /\ UNCHANGED <<total, shot, sent, enc, open, failed>> /\ Go
Fine2 == ~failed /\ ~Bad /\ shot = total /\ Cfg.enc = "ok"
TEnd == /\ Is("end") /\ stage = "over" /\ E.loud = 0 /\ E.browsers = 0 /\ E.encoders = 0
        /\ \A i \in 1..Len(E.frames) : E.frames[i] = i
        /\ Len(E.frames) <= shot
        /\ E.torn => (failed \/ Cfg.enc # "ok")
        /\ (Fine2 => Len(E.frames) = total)
        /\ Cfg.keep => (E.kept = [i \in 1..Len(E.kept) |-> i] /\ Len(E.kept) <= shot /\ (Fine2 => Len(E.kept) = total))
        /\ UNCHANGED vvars /\ Go
Next == TOpen \/ TSet \/ TTime \/ TShot \/ TEnc \/ TFault \/ TClose \/ TDone \/ TEnd
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
