------------------------------ MODULE ScrollMC ------------------------------
EXTENDS Scroll, TLC, Json
CONSTANTS MaxX, MaxY, VW, VH, Deep
VARIABLES ghost   \* [steps: bounded-work counter, sum: declared time so far]
mvars == <<page, prog, speed, pos, stack, op, now, fail, ghost>>
L(s, v, u) == [k |-> "delta", sign |-> s, v |-> v, unit |-> u]
A(n, sfx, o) == [k |-> "abs", anchor |-> n, sfx |-> sfx, offs |-> o]
O(s, v, u) == [sign |-> s, v |-> v, unit |-> u]
S(d, t) == [k |-> "scroll", dir |-> d, target |-> t, ms |-> -1, pps |-> 0, ease |-> ""]
SMs(d, t, m) == [S(d, t) EXCEPT !.ms = m]
SPs(d, t, p) == [S(d, t) EXCEPT !.pps = p]
P(m) == [k |-> "pause", ms |-> m]
\* lengths in hundreds of pixels
Deltas == {S("", L(1, 300, "px")), S("up", L(1, 200, "px")), S("down", L(-1, 300, "px")), SMs("", L(1, 900, "px"), 1000),
           SPs("", L(1, 50, "%"), 700), S("right", L(1, 300, "px")), S("left", L(1, 20, "%")), S("", L(-1, 700, "px"))}
Abss == {S("", A("bottom", "", <<>>)), S("", A("top", "", <<O(1, 200, "px")>>)), S("up", A("top", "", <<>>)), S("down", A("top", "", <<O(1, 400, "px")>>)),
         S("", A("end", "x", <<O(-1, 100, "px")>>)), S("", A("sA", "", <<>>)), SMs("right", A("right", "", <<>>), 333), S("", A("missing", "", <<>>))}
Acts == Deltas \cup Abss \cup {P(700)}
Untils == {[k |-> "none"], [k |-> "count", n |-> 2]} \cup
  {[k |-> "pos", target |-> t] : t \in {A("bottom", "", <<>>), A("bottom", "", <<O(-1, 400, "px")>>), A("top", "", <<O(1, 200, "px")>>), A("top", "", <<>>),
                                        A("right", "", <<O(-1, 100, "px")>>), A("sA", "", <<>>), A("missing", "", <<>>), A("start", "", <<O(1, 50, "%"), O(-1, 100, "px")>>)}}
G(b, u) == [k |-> "group", body |-> b, until |-> u]
Pres == {<<>>, <<S("", A("bottom", "", <<>>))>>}
Small == {S("", L(1, 300, "px")), S("up", L(1, 200, "px")), P(700), S("right", L(1, 300, "px"))}
PosU == {[k |-> "pos", target |-> t] : t \in {A("bottom", "", <<>>), A("top", "", <<O(1, 200, "px")>>), A("right", "", <<O(-1, 100, "px")>>)}}
Progs ==
  {p \o <<G(<<a>>, u)>> : p \in Pres, a \in Acts, u \in Untils}
  \cup {p \o <<G(<<a, b>>, u)>> : p \in Pres, a \in (IF Deep THEN Acts ELSE Small), b \in Acts, u \in Untils}
  \cup {<<G(<<a, G(<<b>>, u), a>>, v)>> : a \in Small, b \in Small, u \in PosU \cup {[k |-> "count", n |-> 2]}, v \in PosU \cup {[k |-> "count", n |-> 2]}}
  \cup {<<G(<<a>>, u), G(<<b>>, v)>> : a \in Small, b \in Small, u \in PosU, v \in PosU}
Pages == {[mx |-> MaxX, my |-> MaxY, vw |-> VW, vh |-> VH, grow |-> g, left |-> IF g = 0 THEN 0 ELSE 1, sel |-> [sA |-> [x |-> 100, y |-> 800]]] : g \in {0, 500}}
Init == \E p \in Progs, pg \in Pages : ScrollInit([page |-> pg, prog |-> p, speed |-> 1500]) /\ ghost = [sum |-> 0, lo |-> 0]
Keep == UNCHANGED ghost
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
Whole == IF op.fixed THEN op.ms ELSE RoundDiv(1000 * op.mag, op.pps)
DoEnter == EnterGroup /\ Keep
DoOnce == LoopOnce /\ Len(stack) > 1 /\ Keep
DoCount == LoopCount /\ Keep
DoUntil == LoopUntil /\ Keep
DoBegin == BeginScroll /\ Keep
DoLand == op.on /\ Land(op.t0 + (Whole * (op.done + 1)) \div op.n) /\ ghost' = IF op.done + 1 = op.n THEN [ghost EXCEPT !.sum = @ + Whole] ELSE ghost
DoPause == Pause /\ ghost' = [ghost EXCEPT !.sum = @ + Node.ms]
DoFinish == Finish /\ Keep
Next == DoEnter \/ DoOnce \/ DoCount \/ DoUntil \/ DoBegin \/ DoLand \/ DoPause \/ DoFinish
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)
ClockExact == ~op.on => now = ghost.sum
Moves == [][pos' # pos => op.on /\ (op.axis = "x" => pos'.y = pos.y) /\ (op.axis = "y" => pos'.x = pos.x)]_mvars
\* never beyond the goal of an enclosing repeat when heading for it
NoOvershoot == \A k \in 1..Len(stack) : LET f == stack[k] IN
   (f.until.k = "pos" /\ f.n > 0 /\ Known(f.until.target) /\ page.left = 0 /\ page.grow = 0) =>
      LET ax == UAxis(f.until) IN
      /\ (f.tgt > f.cur => At(ax) <= Max(f.tgt, f.cur)) /\ (f.tgt < f.cur => At(ax) >= Min(f.tgt, f.cur))
Terminates == <>Done
Export == (stack # <<>> /\ Len(stack) = 1 /\ Top(stack).i = 1 /\ now = 0 /\ ~op.on /\ pos.y = 0 /\ pos.x = 0) => PrintT("@@" \o ToJson([page |-> page, prog |-> prog, speed |-> speed]))
=============================================================================
