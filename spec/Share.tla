-------------------------------- MODULE Share --------------------------------
(* Moving repeated image payloads into shared definitions, one image at a time.
   An image is [p: payload, w, h, par, x, y: place, clip: page-space clip region
   or 0, tr: own transform or 0, big: worth sharing, plain: attributes readable].
   A written occurrence is either the image itself or a reference [def, x, y]
   inside a wrapper that carries the clip.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES src, out, defs, k
vars == <<src, out, defs, k>>
Key(i) == <<src[i].p, src[i].w, src[i].h, src[i].par>>
May(i) == src[i].big /\ src[i].plain
Group(i) == {j \in 1..Len(src) : May(j) /\ Key(j) = Key(i)}
Shared(i) == May(i) /\ Cardinality(Group(i)) >= 2
DefOf(i) == CHOOSE d \in 1..Len(defs) : defs[d].key = Key(i)
ShareInit(s) == src = s /\ out = <<>> /\ defs = <<>> /\ k = 1
Keep == /\ k <= Len(src) /\ ~Shared(k)
        /\ out' = Append(out, [def |-> 0, img |-> src[k]]) /\ k' = k + 1 /\ UNCHANGED <<src, defs>>
Define == /\ k <= Len(src) /\ Shared(k) /\ \A d \in 1..Len(defs) : defs[d].key # Key(k)
          /\ defs' = Append(defs, [id |-> Len(defs) + 1, key |-> Key(k)]) /\ UNCHANGED <<src, out, k>>
Refer == /\ k <= Len(src) /\ Shared(k) /\ \E d \in 1..Len(defs) : defs[d].key = Key(k)
         \* the clip stays where it is on the page: outside the reference that moves by (x, y)
         /\ out' = Append(out, [def |-> defs[DefOf(k)].id, x |-> src[k].x, y |-> src[k].y, clip |-> src[k].clip, tr |-> src[k].tr])
         /\ k' = k + 1 /\ UNCHANGED <<src, defs>>
ShareNext == Keep \/ Define \/ Refer
\* what an occurrence paints
Paint(i) == [p |-> i.p, w |-> i.w, h |-> i.h, par |-> i.par, x |-> i.x, y |-> i.y, clip |-> i.clip, tr |-> i.tr]
Resolve(o) == IF o.def = 0 THEN Paint(o.img)
  ELSE LET d == CHOOSE q \in 1..Len(defs) : defs[q].id = o.def IN
       [p |-> defs[d].key[1], w |-> defs[d].key[2], h |-> defs[d].key[3], par |-> defs[d].key[4], x |-> o.x, y |-> o.y, clip |-> o.clip, tr |-> o.tr]
SamePicture == \A i \in 1..Len(out) : Resolve(out[i]) = Paint(src[i])
UniqueIds == \A a, b \in 1..Len(defs) : defs[a].id = defs[b].id => a = b
\* one copy per shared group, none for the others
Copies(key) == Cardinality({d \in 1..Len(defs) : defs[d].key = key}) + Cardinality({i \in 1..Len(out) : out[i].def = 0 /\ Key(i) = key})
Done == k > Len(src)
OneCopy == Done => \A i \in 1..Len(src) : Shared(i) => Cardinality({d \in 1..Len(defs) : defs[d].key = Key(i)}) = 1
Untouched == Done /\ (\A i \in 1..Len(src) : ~Shared(i)) => defs = <<>> /\ \A i \in 1..Len(src) : out[i] = [def |-> 0, img |-> src[i]]
=============================================================================
