------------------------------ MODULE DifferMC ------------------------------
EXTENDS Differ, Json, TLC
CONSTANTS N, FACES
Faces == IF FACES = 4 THEN {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>} ELSE {<<1, 0>>, <<1, 1>>, <<2, 0>>}
Node(par, f, c, x) == [par |-> par, tag |-> f[1], text |-> f[2], id |-> 0, key |-> 0, c |-> c, al |-> 1000, x |-> x, y |-> 100 * c, w |-> 300 - 20 * c, h |-> 90]
Parents(n) == {ps \in [1..n -> 0..(n - 1)] : \A i \in 1..n : ps[i] < i}
Trees(base, sh) == UNION {{[i \in 1..n |-> Node(ps[i], fs[i], base + i, IF i = sh THEN 200 ELSE 0)] : ps \in Parents(n), fs \in [1..n -> Faces]} : n \in 1..N}
Init == \E A \in Trees(0, 0), sh \in 0..N : \E B \in Trees(0, sh) : WellFormed(A) /\ WellFormed(B) /\ sh <= Len(B) /\ Start(A, B)
Next == DiffNext \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(DiffNext)
Ends == <>Done
Export == Done => PrintT("@@" \o ToJson([old |-> old, new |-> new]))
=============================================================================
