------------------------------- MODULE CullMC -------------------------------
EXTENDS Cull, TLC, Json
L == 20
V == 10
A(k, f, t, s, d, n, alt) == [kind |-> k, from |-> f, to |-> t, start |-> s, dur |-> d, n |-> n, alt |-> alt]
Still == A("none", 0, 0, 0, 1, 1, FALSE)
Anims == {Still} \cup {A("once", m[1], m[2], s, d, 1, FALSE) : m \in {<<-20, 0>>, <<0, 30>>, <<-20, 20>>}, s \in {0, 6}, d \in {4, 9}}
         \cup {A("times", m[1], m[2], 6, 7, n, alt) : m \in {<<-20, 0>>, <<0, 30>>}, n \in {1, 2, 3}, alt \in BOOLEAN}
         \cup {A("ever", -30, 30, 5, 7, 1, alt) : alt \in BOOLEAN}
Boxes == {<<2, 4>>, <<14, 3>>, <<-9, 5>>}
Docs == {<<[x |-> b[1], w |-> b[2], par |-> 0, anim |-> a], [x |-> c[1], w |-> c[2], par |-> p, anim |-> d]>> :
            b \in Boxes, c \in Boxes, a \in Anims, d \in {Still, A("once", -20, 0, 6, 4, 1, FALSE), A("times", 0, 30, 6, 7, 2, FALSE)}, p \in {0, 1}}
Init == \E d \in Docs : CullInit(d, L, V)
Step == now < 3 * L /\ Tick(1)
Spec == Init /\ [][Step]_vars
Export == now = 0 => PrintT("@@" \o ToJson(els))
=============================================================================
