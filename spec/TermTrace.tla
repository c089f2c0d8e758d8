------------------------------ MODULE TermTrace ------------------------------
(* Accepts a recording of a real terminal film iff, at every probed instant
   outside a line's slide, it shows exactly the frame the model has there.   *)
EXTENDS Term, Json, IOUtils, TLC, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l, reel
tvars == <<vars, tr, l, reel>>
Ev == Traces[tr].ev
E == Ev[l]
C == Traces[tr].cfg
Init == tr \in 1..Len(Traces) /\ l = 1 /\ TermInit(C.cols, C.rows, C.c) /\ reel = <<>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ tr' = tr
Output == Is("out") /\ Out(E.ops, E.gap, E.final) /\ UNCHANGED reel
Sized == Is("resize") /\ Resize(E.cols, E.rows) /\ UNCHANGED reel
\* ---- the projector
Norm(rows) == [r \in 1..C.most |-> IF r <= Len(rows) THEN Text(rows[r]) ELSE <<>>]
Cut == Is("film") /\ LET fl == Leader(film) IN /\ reel' = [k \in 1..Len(fl) |-> [a |-> Sum(fl, k - 1), b |-> Sum(fl, k), rows |-> Norm(fl[k].rows), cur |-> fl[k].cur, last |-> fl[k].last, typing |-> Typing(fl, k)]]
                                               /\ E.total = Total(fl)
       /\ UNCHANGED vars
Times == {E.a + i * E.step : i \in 0..((E.b - E.a) \div E.step)}
\* frames this span was sampled in, away from cuts and slides
Calm == {k \in 1..Len(reel) : \E t \in Times : t - reel[k].a >= 3 /\ reel[k].b - t > (IF C.slides THEN 133 ELSE 3)}
OnCell(c) == E.caret[2] = c.y /\ (E.caret[1] = c.x \/ E.caret[1] = MinI(C.most_cols - 1, c.x))
Caret(f) == /\ E.caret # <<>> => (f.cur.vis /\ OnCell(f.cur)) \/ (f.last.vis /\ OnCell(f.last))
            /\ C.caret /\ f.typing /\ f.cur.vis /\ f.last.vis /\ E.lit => E.caret # <<>>
Span == Is("span") /\ (LET ks == Calm IN ks = {} \/ LET rows == Norm(E.rows) IN \A k \in ks : reel[k].rows = rows /\ Caret(reel[k])) /\ UNCHANGED <<vars, reel>>
Next == Output \/ Sized \/ Cut \/ Span
Spec == Init /\ [][Next]_tvars
ASSUME \A k \in 1..Len(Traces) : TLCSet(k, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([k \in 1..Len(Traces) |-> TLCGet(k)]))
=============================================================================
