-------------------------------- MODULE PaintMC --------------------------------
(* every tree of up to Max boxes over a few kinds, grown box by box *)
EXTENDS Paint, TLC, Json
CONSTANTS Max, Show
VARIABLES N
Kind == {<<FALSE, Auto, FALSE, "block", FALSE>>, <<FALSE, Auto, FALSE, "inline", FALSE>>, <<FALSE, Auto, FALSE, "flex", FALSE>>, <<FALSE, Auto, TRUE, "block", FALSE>>,
         <<TRUE, Auto, FALSE, "block", FALSE>>, <<TRUE, 0, FALSE, "block", FALSE>>, <<TRUE, 1, FALSE, "block", FALSE>>, <<TRUE, -1, FALSE, "block", FALSE>>, <<FALSE, 1, FALSE, "block", FALSE>>, <<FALSE, Auto, FALSE, "block", TRUE>>}
\* parents that keep document order: the rightmost branch
RECURSIVE Branch(_)
Branch(i) == IF i = 0 THEN {0} ELSE {i} \cup Branch(N[i].par)
Init == N = <<>>
Grow == Len(N) < Max /\ \E k \in Kind, p \in Branch(Len(N)) : N' = Append(N, [par |-> p, pos |-> k[1], z |-> k[2], fl |-> k[3], disp |-> k[4], iso |-> k[5], txt |-> FALSE, ord |-> 0])
Next == Grow
Spec == Init /\ [][Next]_N
Q == Order(N)
RECURSIVE Under(_, _)
Under(i, r) == IF i = r THEN TRUE ELSE IF N[i].par = 0 THEN FALSE ELSE Under(N[i].par, r)
\* every box is painted exactly once
Once == Len(Q) = Len(N) /\ \A i \in 1..Len(N) : \E k \in 1..Len(Q) : Q[k] = 2 * i
\* a context is painted in one piece
Atomic == \A r \in 1..Len(N) : Context(N, r) => LET S == {Place(Q, 2 * i) : i \in {j \in 1..Len(N) : Under(j, r)}} IN \A a, b \in S, c \in 1..Len(Q) : (a <= c /\ c <= b) => c \in S
\* ranks order siblings of a context, whatever the document order
Ranks == \A i, j \in 1..Len(N) : (Ranked(N, i) /\ Ranked(N, j) /\ Home(N, i) = Home(N, j) /\ N[i].z < N[j].z) => Place(Q, 2 * i) < Place(Q, 2 * j)
\* a box is painted after the box it lies in, unless it ranks below its context
Inside == \A i \in 1..Len(N) : (N[i].par # 0 /\ (\A j \in 1..Len(N) : Under(i, j) /\ Layer(N, j) = "under" => (j # i /\ Context(N, j) /\ ~Under(N[i].par, i) /\ Under(N[i].par, j)))) => Place(Q, 2 * N[i].par) < Place(Q, 2 * i)
\* adding nothing but later boxes never reorders those already there
\* positioned boxes lie above the unpositioned ones of their context that hold nothing positioned
Above == \A i, j \in 1..Len(N) : (Layer(N, i) \in {"over", "top"} /\ Layer(N, j) \in {"flow", "float", "inline"} /\ Home(N, i) = Home(N, j) /\ (\A m \in 1..Len(N) : Under(j, m) => Layer(N, m) \in {"flow", "float", "inline"} \/ Under(i, m))
            /\ ~(\E m \in 1..Len(N) : Under(j, m) /\ Layer(N, m) \in {"over", "top"})) => Place(Q, 2 * j) < Place(Q, 2 * i)
Export == (Show /\ Len(N) = Max) => PrintT("@@" \o ToJson(N))
=============================================================================
