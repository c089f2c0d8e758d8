------------------------------ MODULE PointerTrace ------------------------------
(* What the rendered pointer does.  cfg: [ev, world, starts, total, slack, clicks: Seq([i, t, len, r, half])]
   lengths in 1/100 px, times in ms
   at: where the pointer group is, the shapes seen
   rings: the pulses seen as <<click, x, y, radius, half disc seen>>            *)
EXTENDS Pointer, TLC, Json, IOUtils, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
C == Traces[tr].cfg
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1
Go == l' = l + 1 /\ UNCHANGED tr
T == E.t % C.total
Near(a, b, d) == a - b <= d /\ b - a <= d
Shapes == {ShapeAt(C.world, C.starts, C.ev, t) : t \in {u \in (T - C.slack)..(T + C.slack) : u >= 0 /\ u <= C.total}}
Seen == IF Len(E.shown) = 0 THEN {"hidden", "none"} ELSE {E.shown[1]}
DoAt == /\ E.e = "at" /\ Len(E.shown) <= 1
        /\ LET s == At(C.ev, T) IN
           /\ (s.vis => Near(E.x, X(s, T), C.tol) /\ Near(E.y, Y(s, T), C.tol))
           /\ (~s.vis => Len(E.shown) = 0)
           /\ (s.vis /\ Len(E.shown) = 0 => "none" \in Shapes)
           /\ Seen \cap Shapes # {}
        /\ Go
Ring(c, k) == LET q == {i \in 1..Len(E.q) : E.q[i][1] = k} sp == Span(c, C.total) s == Play(Start, SubSeq(C.ev, 1, c.i), 1, c.t) IN
  /\ (T < c.t - 2 \/ T > c.t + sp + 2) => q = {}
  /\ (100 * (T - c.t) >= 6 * sp /\ 100 * (T - c.t) <= 85 * sp) => q # {}
  /\ \A i \in q : /\ Near(E.q[i][2], X(s, c.t), C.tol) /\ Near(E.q[i][3], Y(s, c.t), C.tol)
                  /\ Near(E.q[i][4], 400 + ((c.r * 100 - 400) * (T - c.t)) \div sp, 150)
                  /\ (E.q[i][5] => c.half)
  /\ (c.half /\ 100 * (T - c.t) >= 8 * sp /\ 100 * (T - c.t) <= 85 * sp) => \A i \in q : E.q[i][5]
DoRings == /\ E.e = "rings" /\ (\A k \in 1..Len(C.clicks) : C.clicks[k].t + 4 < C.total => Ring(C.clicks[k], k))
           /\ (\A i \in 1..Len(E.q) : E.q[i][1] \in 1..Len(C.clicks)) /\ Go
Next == l <= Len(Ev) /\ (DoAt \/ DoRings)
Spec == Init /\ [][Next]_vars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
