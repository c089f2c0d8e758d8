------------------------------- MODULE Scroll -------------------------------
(* A scroll script is a program: a sequence of nodes, each a scroll action, a
   pause or a group (a body with an optional repeat clause).  The machine runs
   it on a page of a given size, one screenful at a time.  Lengths are integer
   pixels, times integer milliseconds.                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES page,   \* [mx, my, vw, vh, grow (by), left (growths left), sel (selector -> [x,y])]
          prog, speed,
          pos,    \* [x, y]
          stack,  \* call stack of group frames, innermost last
          op,     \* scroll in flight, or NoOp
          now,    \* scene clock
          fail    \* the script named an element that does not exist
svars == <<page, prog, speed, pos, stack, op, now, fail>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Clamp(v, hi) == Max(0, Min(hi, v))
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(s, f) == [s EXCEPT ![Len(s)] = f]
NoOp == [on |-> FALSE]
MaxOf(ax) == IF ax = "x" THEN page.mx ELSE page.my
At(ax) == IF ax = "x" THEN pos.x ELSE pos.y
View(ax) == IF ax = "x" THEN page.vw ELSE page.vh

\* ---- targets
Px(len, ax) == IF len.unit = "px" THEN len.v ELSE (len.v * MaxOf(ax)) \div 100
NamedAxis(t) == CASE t.anchor \in {"top", "bottom"} -> "y"
                  [] t.anchor \in {"left", "right"} -> "x"
                  [] t.sfx # "" -> t.sfx
                  [] OTHER -> "y"
AnchorAt(t, ax) ==
  CASE t.anchor \in {"top", "left", "start"} -> 0
    [] t.anchor = "bottom" -> page.my
    [] t.anchor = "right" -> page.mx
    [] t.anchor = "end" -> MaxOf(ax)
    [] OTHER -> LET s == page.sel[t.anchor] IN IF (IF t.sfx # "" THEN t.sfx ELSE ax) = "x" THEN s.x ELSE s.y
Known(t) == t.anchor \in {"top","bottom","left","right","start","end"} \cup DOMAIN page.sel
RECURSIVE Offsets(_, _, _)
Offsets(os, k, ax) == IF k = 0 THEN 0 ELSE Offsets(os, k - 1, ax) + os[k].sign * Px(os[k], ax)
Resolve(t, ax) == AnchorAt(t, ax) + Offsets(t.offs, Len(t.offs), ax)

ActAxis(a) == IF a.dir # "" THEN (IF a.dir \in {"up", "down"} THEN "y" ELSE "x")
              ELSE IF a.target.k = "delta" THEN "y" ELSE NamedAxis(a.target)
ActSign(a) == IF a.dir \in {"up", "left"} THEN -1 ELSE 1
WantedDelta(a) ==
  LET ax == ActAxis(a) IN
  IF a.target.k = "delta" THEN ActSign(a) * a.target.sign * Px(a.target, ax)
  ELSE LET d == Resolve(a.target, ax) - At(ax) IN
       IF a.dir # "" /\ d # 0 /\ Sgn(d) # ActSign(a) THEN 0 ELSE d

\* ---- groups
NewFrame(g) == [body |-> g.body, until |-> g.until, i |-> Len(g.body) + 1, n |-> 0,
                px |-> -1, py |-> -1, cur |-> 0, tgt |-> 0, dir |-> 0]
UAxis(u) == IF u.target.sfx # "" THEN u.target.sfx
            ELSE IF u.target.anchor \in {"left", "right"} THEN "x" ELSE "y"
\* a repeat towards a place is over once the place is reached, or passed in
\* the direction it lay in when the repeat began
Reached(f, dir, tgt, cur) == cur = tgt \/ (dir > 0 /\ cur >= tgt) \/ (dir < 0 /\ cur <= tgt)
\* a scroll heading for the repeat's goal stops there
CapBy(f, ax, dest) ==
  IF f.until.k # "pos" \/ f.n = 0 THEN dest
  ELSE IF UAxis(f.until) # ax THEN dest
  ELSE IF dest > f.cur /\ f.tgt >= f.cur THEN Min(dest, f.tgt)
  ELSE IF dest < f.cur /\ f.tgt <= f.cur THEN Max(dest, f.tgt)
  ELSE dest
RECURSIVE CapAll(_, _, _)
CapAll(k, ax, dest) == IF k = 0 THEN dest ELSE CapAll(k - 1, ax, CapBy(stack[k], ax, dest))

Running == stack # <<>> /\ ~op.on /\ ~fail
Node == Top(stack).body[Top(stack).i]
AtNode(k) == Running /\ Top(stack).i <= Len(Top(stack).body) /\ Node.k = k
Step(s) == SetTop(s, [Top(s) EXCEPT !.i = @ + 1])

ScrollInit(c) ==
  /\ page = c.page /\ prog = c.prog /\ speed = c.speed
  /\ pos = [x |-> 0, y |-> 0]
  /\ stack = <<[body |-> c.prog, until |-> [k |-> "none"], i |-> 1, n |-> 1, px |-> -1, py |-> -1, cur |-> 0, tgt |-> 0, dir |-> 0]>>
  /\ op = NoOp /\ now = 0 /\ fail = FALSE

EnterGroup == AtNode("group") /\ stack' = Append(Step(stack), NewFrame(Node))
              /\ UNCHANGED <<page, prog, speed, pos, op, now, fail>>

AtEnd(k) == Running /\ Top(stack).i > Len(Top(stack).body) /\ Top(stack).until.k = k
Again == stack' = SetTop(stack, [Top(stack) EXCEPT !.i = 1, !.n = @ + 1])
Leave == stack' = Pop(stack)
Quiet == UNCHANGED <<page, prog, speed, pos, op, now>>
LoopOnce  == AtEnd("none") /\ (IF Top(stack).n = 0 THEN Again ELSE Leave) /\ Quiet /\ UNCHANGED fail
LoopCount == AtEnd("count") /\ (IF Top(stack).n < Top(stack).until.n THEN Again ELSE Leave) /\ Quiet /\ UNCHANGED fail
LoopUntil ==
  /\ AtEnd("pos") /\ Quiet
  /\ LET f == Top(stack)  u == f.until  ax == UAxis(u) IN
     IF ~Known(u.target) THEN fail' = TRUE /\ UNCHANGED stack
     ELSE LET tgt == Resolve(u.target, ax)
              dir == IF f.n = 0 THEN Sgn(tgt - At(ax)) ELSE f.dir IN
          /\ UNCHANGED fail
          /\ IF Reached(f, dir, tgt, At(ax)) THEN Leave
             ELSE IF f.n > 0 /\ f.px = pos.x /\ f.py = pos.y THEN Leave      \* no progress: give up
             ELSE stack' = SetTop(stack, [f EXCEPT !.i = 1, !.n = @ + 1, !.dir = dir,
                                          !.px = pos.x, !.py = pos.y, !.cur = At(ax), !.tgt = tgt])

BeginScroll ==
  /\ AtNode("scroll")
  /\ UNCHANGED <<page, prog, speed, pos, now>>
  /\ LET a == Node IN
     IF a.target.k = "abs" /\ ~Known(a.target) THEN fail' = TRUE /\ UNCHANGED <<stack, op>>
     ELSE LET ax == ActAxis(a)
              dest == CapAll(Len(stack), ax, Clamp(At(ax) + WantedDelta(a), MaxOf(ax)))
              mag == Abs(dest - At(ax)) IN
          /\ UNCHANGED fail
          /\ stack' = Step(stack)
          /\ op' = [on |-> TRUE, axis |-> ax, from |-> At(ax), dest |-> dest, done |-> 0,
                    n |-> Max(1, (mag + View(ax) - 1) \div View(ax)), t0 |-> now,
                    fixed |-> a.ms >= 0, ms |-> a.ms, mag |-> mag,
                    pps |-> IF a.pps > 0 THEN a.pps ELSE speed, ease |-> a.ease]
\* the whole action takes its declared time, or distance over speed (rounded to a ms)
TimeOk(o, ms) == IF o.fixed THEN ms = o.ms ELSE Abs(2 * o.pps * ms - 2000 * o.mag) <= o.pps
Part(o) == IF o.done + 1 = o.n THEN o.dest ELSE o.from + Sgn(o.dest - o.from) * (o.done + 1) * View(o.axis)
Put(ax, v) == IF ax = "x" THEN [pos EXCEPT !.x = v] ELSE [pos EXCEPT !.y = v]
\* a page that loads more content when its end is reached
Grow(p) == IF page.left > 0 /\ p.y = page.my THEN [page EXCEPT !.my = @ + page.grow, !.left = @ - 1] ELSE page
\* one screenful: lands exactly k screens from the start, the last at the target;
\* t is when it lands
Land(t) ==
  /\ op.on /\ ~fail
  /\ t >= now
  /\ pos' = Put(op.axis, Part(op)) /\ now' = t
  /\ page' = Grow(pos')
  /\ IF op.done + 1 = op.n THEN TimeOk(op, t - op.t0) /\ op' = NoOp
     ELSE op' = [op EXCEPT !.done = @ + 1]
  /\ UNCHANGED <<prog, speed, stack, fail>>
Pause == /\ AtNode("pause") /\ now' = now + Node.ms /\ stack' = Step(stack)
         /\ UNCHANGED <<page, prog, speed, pos, op, fail>>
Finish == /\ Running /\ Len(stack) = 1 /\ Top(stack).i > Len(Top(stack).body) /\ Top(stack).n >= 1
          /\ Top(stack).until.k = "none" /\ stack' = <<>> /\ UNCHANGED <<page, prog, speed, pos, op, now, fail>>
Done == stack = <<>> \/ fail

InRange == pos.x \in 0..page.mx /\ pos.y \in 0..page.my
DepthOk == Len(stack) <= 6
\* nothing but an action of the program moves the page, and it moves only along its axis
=============================================================================
