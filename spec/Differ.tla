-------------------------------- MODULE Differ --------------------------------
(* Comparing two captured trees, and the morph built from the comparison.

   A tree is a list of elements in document order; each has its parent's
   position in the list (0 for a root), a tag, a text, an author's identifier
   and an author's key (0: none), a colour, an opacity, and a rectangle in
   tenths of a pixel.

   Two elements are alike when tag, identifier, text and children are alike.
   Each new element, in document order, takes the first free old element alike
   it (Take); an element whose alike is used up, or that has none, may take the
   old element at its own place in the tree if that is free and has its tag and
   either its text or its identifier (Adopt); what is left over is new or gone.
   A key present in both trees pairs its first bearers before all that, as far
   as the morph is concerned.                                                *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES old, new, pairs, at, phase
vars == <<old, new, pairs, at, phase>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* ---- shapes
Kids(T, i) == SelectSeq([k \in 1..Len(T) |-> k], LAMBDA k : T[k].par = i)
RECURSIVE Alike(_, _, _, _)
Alike(A, i, B, j) ==
  /\ A[i].tag = B[j].tag /\ A[i].text = B[j].text /\ A[i].id = B[j].id
  /\ LET p == Kids(A, i) q == Kids(B, j) IN Len(p) = Len(q) /\ \A k \in 1..Len(p) : Alike(A, p[k], B, q[k])
RECURSIVE Path(_, _)
Path(T, i) == IF i = 0 THEN <<>> ELSE Append(Path(T, T[i].par), Cardinality({k \in 1..i : T[k].par = T[i].par}))
RECURSIVE Above(_, _)
Above(T, i) == IF T[i].par = 0 THEN {} ELSE {T[i].par} \cup Above(T, T[i].par)
WellFormed(T) == \A i \in 1..Len(T) : T[i].par \in 0..(i - 1) /\ (i > 1 /\ T[i].par # i - 1 => T[i].par = 0 \/ T[i].par \in Above(T, i - 1))

\* ---- matching
FreeOld == {i \in 1..Len(old) : \A p \in pairs : p.o # i}
FreeNew == {j \in 1..Len(new) : \A p \in pairs : p.n # j}
Start(A, B) == old = A /\ new = B /\ pairs = {} /\ at = 1 /\ phase = "alike"
Cand == {i \in FreeOld : Alike(old, i, new, at)}
Drift(i, j) == <<new[j].x - old[i].x, new[j].y - old[i].y>>
Still(i, j) == LET d == Drift(i, j) IN Abs(d[1]) <= 5 /\ Abs(d[2]) <= 5
Take == /\ phase = "alike" /\ at <= Len(new) /\ Cand # {}
        /\ LET i == Min(Cand) IN pairs' = pairs \cup {[o |-> i, n |-> at, k |-> IF Still(i, at) THEN "static" ELSE "translated"]}
        /\ at' = at + 1 /\ UNCHANGED <<old, new, phase>>
Pass == /\ phase = "alike" /\ at <= Len(new) /\ Cand = {} /\ at' = at + 1 /\ UNCHANGED <<old, new, pairs, phase>>
Turn == /\ phase = "alike" /\ at > Len(new) /\ phase' = "place" /\ at' = 1 /\ UNCHANGED <<old, new, pairs>>
Here == {i \in FreeOld : at \in FreeNew /\ Path(old, i) = Path(new, at) /\ old[i].tag = new[at].tag
                         /\ (old[i].text = new[at].text \/ (old[i].id # 0 /\ old[i].id = new[at].id))}
Adopt == /\ phase = "place" /\ at <= Len(new) /\ Here # {}
         /\ pairs' = pairs \cup {[o |-> i, n |-> at, k |-> "modified"] : i \in Here}
         /\ at' = at + 1 /\ UNCHANGED <<old, new, phase>>
Leave == /\ phase = "place" /\ at <= Len(new) /\ Here = {} /\ at' = at + 1 /\ UNCHANGED <<old, new, pairs, phase>>
End == /\ phase = "place" /\ at > Len(new) /\ phase' = "done" /\ UNCHANGED <<old, new, pairs, at>>
DiffNext == Take \/ Pass \/ Turn \/ Adopt \/ Leave \/ End
Done == phase = "done"

\* ---- what has to hold of a finished comparison
EachOnce == \A p, q \in pairs : p # q => p.o # q.o /\ p.n # q.n
NothingMissed == Done => \A i \in FreeOld, j \in FreeNew : ~Alike(old, i, new, j)
KindsRight == \A p \in pairs : IF p.k = "modified" THEN ~Alike(old, p.o, new, p.n) /\ old[p.o].tag = new[p.n].tag
                               ELSE Alike(old, p.o, new, p.n) /\ (p.k = "static" <=> Still(p.o, p.n))
InOrder == \A p, q \in pairs : p.k # "modified" /\ q.k # "modified" /\ p.n < q.n /\ Alike(old, p.o, old, q.o) => p.o < q.o
SameAsBefore == Done /\ Len(old) = Len(new) /\ (\A i \in 1..Len(old) : old[i] = new[i]) => pairs = {[o |-> i, n |-> i, k |-> "static"] : i \in 1..Len(old)}
\* the commonest shift among the shifted
Round(d) == (d + 5) \div 10
Shifted == {p \in pairs : p.k = "translated"}
Shift(p) == LET d == Drift(p.o, p.n) IN <<Round(d[1]), Round(d[2])>>
Peers(p) == Cardinality({q \in Shifted : Shift(q) = Shift(p)})
Most == Max({0} \cup {Peers(p) : p \in Shifted})

\* ---- the morph
Keyed(T, k) == {i \in 1..Len(T) : T[i].key = k}
Keys == ({old[i].key : i \in 1..Len(old)} \cap {new[j].key : j \in 1..Len(new)}) \ {0}
Forced == {[o |-> Min(Keyed(old, k)), n |-> Min(Keyed(new, k))] : k \in Keys}
Partners == Forced \cup {[o |-> p.o, n |-> p.n] : p \in {q \in pairs : \A f \in Forced : q.o # f.o /\ q.n # f.n}}
SameRect(i, j) == Still(i, j) /\ Abs(old[i].w - new[j].w) <= 5 /\ Abs(old[i].h - new[j].h) <= 5
Movers == {p \in Partners : ~SameRect(p.o, p.n)}
Gone == {i \in 1..Len(old) : \A p \in Partners : p.o # i}
Fresh == {j \in 1..Len(new) : \A p \in Partners : p.n # j}
Worthwhile == Movers # {} \/ Gone # {} \/ Fresh # {}
Lead(p) == p \in Movers /\ \A q \in Movers : q.n \notin Above(new, p.n)
Near(a, b) == Abs(a.x - b.x) <= 6 /\ Abs(a.y - b.y) <= 6 /\ Abs(a.w - b.w) <= 6 /\ Abs(a.h - b.h) <= 6
AtPlace(a, b) == Abs(a.x - b.x) <= 20 /\ Abs(a.y - b.y) <= 20 /\ Abs(a.w - b.w) <= 20 /\ Abs(a.h - b.h) <= 20
Looks(s, e) == s.c = e.c /\ Abs(s.al - e.al) <= 20
\* what stands in for an old element when the morph opens: itself, or, if it only changed its look without a move
\* of its own, its partner in the new look
Stands(s, i) == /\ AtPlace(s, old[i])
                /\ \/ Looks(s, old[i])
                   \/ \E p \in Partners : p.o = i /\ ~Lead(p) /\ Looks(s, new[p.n])
OpensRight(S) == (\A i \in 1..Len(old) : \E s \in S : Stands(s, i)) /\ (\A s \in S : \E i \in 1..Len(old) : Stands(s, i))
ClosesRight(S) == /\ \A j \in 1..Len(new) : \E s \in S : AtPlace(s, new[j]) /\ Looks(s, new[j])
                  /\ \A s \in S : \E j \in 1..Len(new) : AtPlace(s, new[j]) /\ Looks(s, new[j])
\* in between: what neither moves nor lies in something that moves or appears stays as it is, and a mover of its own
\* in unchanged looks is on its way from its old to its new rectangle
Calm(j) == \E p \in Partners : p.n = j /\ SameRect(p.o, j)
Steady(j) == Calm(j) /\ \A a \in Above(new, j) : Calm(a)
Between(v, a, b) == Min({a, b}) - 6 <= v /\ v <= Max({a, b}) + 6
Runs(S) == /\ \A j \in 1..Len(new) : Steady(j) => \E s \in S : Near(s, new[j]) /\ Looks(s, new[j])
           /\ \A p \in Movers : (\A a \in Above(new, p.n) : Calm(a)) /\ old[p.o].c = new[p.n].c /\ old[p.o].al = new[p.n].al /\ old[p.o].text = new[p.n].text
                 => \E s \in S : Looks(s, new[p.n]) /\ Between(s.x, old[p.o].x, new[p.n].x) /\ Between(s.y, old[p.o].y, new[p.n].y)
                                 /\ Between(s.w, old[p.o].w, new[p.n].w) /\ Between(s.h, old[p.o].h, new[p.n].h)
=============================================================================
