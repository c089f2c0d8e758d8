--------------------------------- MODULE Paint ---------------------------------
(* The order in which the boxes of a page are painted (CSS 2.1 Appendix E, Flexbox 5.4).
   N: the boxes in (order-modified) document order:
     [par, pos (positioned), z (Auto: none), fl (floats), disp: "block" "inline" "flex",
      iso (makes a context whatever its place: opacity, filter, isolation, ...), txt (holds text), ord]
   Result: a sequence of paintings, 2k the box k with its border, 2k + 1 its text     *)
EXTENDS Integers, Sequences, FiniteSets
Auto == 99
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
InFlex(N, i) == N[i].par # 0 /\ N[N[i].par].disp = "flex"
Ranked(N, i) == (N[i].pos \/ InFlex(N, i)) /\ N[i].z # Auto
Context(N, i) == Ranked(N, i) \/ N[i].iso
Rank(N, i) == IF Ranked(N, i) THEN N[i].z ELSE 0
Layer(N, i) ==
  IF Context(N, i) \/ N[i].pos THEN (IF Rank(N, i) < 0 THEN "under" ELSE IF Rank(N, i) = 0 THEN "over" ELSE "top")
  ELSE IF InFlex(N, i) THEN "inline" ELSE IF N[i].fl THEN "float" ELSE IF N[i].disp = "inline" THEN "inline" ELSE "flow"
\* the nearest enclosing context (0: the page)
RECURSIVE Home(_, _), Chain(_, _, _)
Home(N, i) == IF i = 0 THEN 0 ELSE IF N[i].par = 0 THEN 0 ELSE IF Context(N, N[i].par) THEN N[i].par ELSE Home(N, N[i].par)
\* i hangs from r by plain in-flow blocks alone
Chain(N, i, r) == N[i].par = r \/ (N[i].par # 0 /\ Layer(N, N[i].par) = "flow" /\ Chain(N, N[i].par, r))
RECURSIVE Ascend(_)
Ascend(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascend(S \ {m})
\* by rank, then in document order
RECURSIVE ByRank(_, _)
ByRank(N, S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : Rank(N, x) < Rank(N, y) \/ (Rank(N, x) = Rank(N, y) /\ x <= y) IN <<m>> \o ByRank(N, S \ {m})
RECURSIVE Unit(_, _)
Each(N, q) == Flat([k \in 1..Len(q) |-> Unit(N, q[k])])
Text(N, i) == IF N[i].txt THEN <<2 * i + 1>> ELSE <<>>
\* a box painted as one piece: a context, or a box treated like one except that ranked boxes inside belong to the enclosing context
Unit(N, r) ==
  LET All == 1..Len(N)
      full == r = 0 \/ (r # 0 /\ Context(N, r))
      ranked(ls) == IF full THEN {i \in All : Layer(N, i) \in ls /\ Home(N, i) = r} ELSE {}
      here == {i \in All : Chain(N, i, r)}
      flow == {i \in here : Layer(N, i) = "flow"}
      content == Ascend({i \in here : Layer(N, i) \in {"flow", "inline"}})
  IN (IF r = 0 THEN <<>> ELSE <<2 * r>>)
     \o Each(N, ByRank(N, ranked({"under"})))
     \o LET q == Ascend(flow) IN [k \in 1..Len(q) |-> 2 * q[k]]
     \o Each(N, Ascend({i \in here : Layer(N, i) = "float"}))
     \o (IF r = 0 THEN <<>> ELSE Text(N, r))
     \o Flat([k \in 1..Len(content) |-> IF Layer(N, content[k]) = "flow" THEN Text(N, content[k]) ELSE Unit(N, content[k])])
     \o Each(N, Ascend(ranked({"over"})))
     \o Each(N, ByRank(N, ranked({"top"})))
Order(N) == Unit(N, 0)
Place(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x
\* boxes on the page
Meet(a, b) == a.x < b.x + b.w /\ b.x < a.x + a.w /\ a.y < b.y + b.h /\ b.y < a.y + a.h
Holds(a, x, y) == x >= a.x /\ x < a.x + a.w /\ y >= a.y /\ y < a.y + a.h
\* the box on top at a point (0: none), boxes that take no part in pointing aside
Top(N, order, x, y) == LET q == SelectSeq(order, LAMBDA p : p % 2 = 0 /\ N[p \div 2].point /\ Holds(N[p \div 2], x, y)) IN IF q = <<>> THEN 0 ELSE q[Len(q)] \div 2
=============================================================================
