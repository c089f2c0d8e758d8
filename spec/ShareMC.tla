------------------------------- MODULE ShareMC -------------------------------
EXTENDS Share, TLC, Json
Imgs == {[p |-> p, w |-> w, h |-> 20, par |-> par, x |-> x, y |-> 5, clip |-> cl, tr |-> t, big |-> b, plain |-> pl] :
          p \in 1..2, w \in {20, 30}, par \in {0, 1}, x \in {4, 40}, cl \in {0, 1}, t \in {0, 1}, b \in BOOLEAN, pl \in BOOLEAN}
Small == {i \in Imgs : (i.clip = 1 => i.tr = 0) /\ (~i.big => i.plain /\ i.clip = 0 /\ i.tr = 0 /\ i.par = 0) /\ (~i.plain => i.tr = 0 /\ i.par = 0) /\ (i.par = 1 => i.p = 1 /\ i.w = 20)}
Base == [p |-> 1, w |-> 20, h |-> 20, par |-> 0, x |-> 4, y |-> 5, clip |-> 0, tr |-> 0, big |-> TRUE, plain |-> TRUE]
Srcs == {<<a, b>> : a \in Small, b \in Small} \cup {<<a, Base, b>> : a \in Small, b \in Small}
Init == \E s \in Srcs : ShareInit(s)
Spec == Init /\ [][ShareNext]_vars
Export == k = 1 /\ defs = <<>> => PrintT("@@" \o ToJson(src))
=============================================================================
