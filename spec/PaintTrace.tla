------------------------------ MODULE PaintTrace ------------------------------
(* What was painted, in order, and what pointing found.  cfg.nodes: Paint's boxes with x, y, w, h, point *)
EXTENDS Paint, TLC, Json, IOUtils, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l, q
vars == <<tr, l, q>>
Ev == Traces[tr].ev
N == Traces[tr].cfg.nodes
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ q = Order(Traces[tr].cfg.nodes)
Is(k) == l <= Len(Ev) /\ E.e = k
Go == l' = l + 1 /\ UNCHANGED <<tr, q>>
\* only paintings that can cover one another have an order that matters
Rect(p) == LET b == N[p \div 2] IN IF p % 2 = 0 THEN b ELSE [x |-> b.x, y |-> b.y, w |-> 40, h |-> 18]
DoPaint == /\ Is("paint")
           /\ LET g == E.order IN
              /\ Len(g) = Len(q) /\ \A k \in 1..Len(q) : \E j \in 1..Len(g) : g[j] = q[k]
              /\ \A a, b \in 1..Len(q) : (a < b /\ Meet(Rect(q[a]), Rect(q[b]))) => Place(g, q[a]) < Place(g, q[b])
           /\ Go
DoHit == Is("hit") /\ E.k = Top(N, q, E.x, E.y) /\ Go
Next == DoPaint \/ DoHit
Spec == Init /\ [][Next]_vars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
