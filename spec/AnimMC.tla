------------------------------- MODULE AnimMC -------------------------------
EXTENDS Anim, TLC, Json
L == 20
Lin == [i \in 1..101 |-> (i - 1) * 10]
Slow == [i \in 1..101 |-> ((i - 1) * (i - 1)) \div 10]
K(p, f, t, s, d, c) == [prop |-> p, from |-> f, to |-> t, start |-> s, dur |-> d, curve |-> c]
E(par, ts, rep, alt, o) == [par |-> par, tracks |-> ts, rep |-> rep, alt |-> alt, ox |-> o, oy |-> o]
X(s, d, c) == K("translateX", -400, 600, s, d, c)
S(s, d, c) == K("scale", 500, 2000, s, d, c)
O(s, d, c) == K("opacity", 0, 1000, s, d, c)
Y(s, d, c) == K("translateY", 300, 0, s, d, c)
Wins == {<<0, 5>>, <<3, 9>>, <<12, 8>>, <<14, 11>>}
One == {E(0, <<X(w[1], w[2], c)>>, 0, FALSE, 0) : w \in Wins, c \in 1..2}
  \cup ({E(0, <<a, b>>, 0, FALSE, o) : a \in {S(3, 9, 1), X(3, 9, 2), O(3, 9, 1)}, b \in {Y(3, 9, 1), S(5, 4, 2), O(1, 12, 1)}, o \in {0, 400}} \ {E(0, <<O(3, 9, 1), O(1, 12, 1)>>, 0, FALSE, o) : o \in {0, 400}})
  \cup {E(0, <<K("translateX", 0, 500, s, 4, c)>>, n, alt, 0) : s \in {0, 6}, n \in {1, 2, 3, -1}, alt \in BOOLEAN, c \in 1..2}
Two == {E(1, <<X(2, 6, 1)>>, 0, FALSE, 0), E(1, <<S(0, 20, 1), O(4, 4, 2)>>, 0, FALSE, 300), E(1, <<K("scale", 1000, 1500, 1, 3, 1)>>, -1, TRUE, 200)}
Docs == {<<a>> : a \in One} \cup {<<a, b>> : a \in One, b \in Two}
Init == \E d \in Docs : AnimInit(d, <<Lin, Slow>>, L)
Step == now < 2 * L + 3 /\ Tick(1)
Spec == Init /\ [][Step]_vars
Export == now = 0 => PrintT("@@" \o ToJson(els))
=============================================================================
