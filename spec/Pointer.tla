-------------------------------- MODULE Pointer --------------------------------
(* A pointer that follows a script.  Events, in time order:
   show (jump to x, y and appear), hide, move (to x, y or by dx, dy; over dur, or
   at once when dur is 0), click (a pulse where the pointer is).  A move that is
   interrupted ends where the pointer is at that moment.
   state: on the way from <<x0, y0>> at t0 to <<x1, y1>> at t1, then resting     *)
EXTENDS Integers, Sequences, FiniteSets
Start == [x0 |-> 0, y0 |-> 0, t0 |-> 0, x1 |-> 0, y1 |-> 0, t1 |-> 0, vis |-> FALSE, kind |-> ""]
Between(a, b, t0, t1, t) == IF t >= t1 THEN b ELSE IF t <= t0 THEN a ELSE a + ((b - a) * (t - t0)) \div (t1 - t0)
X(s, t) == Between(s.x0, s.x1, s.t0, s.t1, t)
Y(s, t) == Between(s.y0, s.y1, s.t0, s.t1, t)
Rest(s, x, y, t) == [s EXCEPT !.x0 = x, !.y0 = y, !.x1 = x, !.y1 = y, !.t0 = t, !.t1 = t]
Goal(s, e) == IF e.rel THEN <<X(s, e.t) + e.x, Y(s, e.t) + e.y>> ELSE <<e.x, e.y>>
Take(s, e) ==
  CASE e.k = "show" -> [Rest(s, e.x, e.y, e.t) EXCEPT !.vis = TRUE, !.kind = e.kind]
    [] e.k = "hide" -> [Rest(s, X(s, e.t), Y(s, e.t), e.t) EXCEPT !.vis = FALSE, !.kind = ""]
    [] e.k = "move" -> LET g == Goal(s, e) IN
         [x0 |-> IF e.dur = 0 THEN g[1] ELSE X(s, e.t), y0 |-> IF e.dur = 0 THEN g[2] ELSE Y(s, e.t), t0 |-> e.t,
          x1 |-> g[1], y1 |-> g[2], t1 |-> e.t + e.dur, vis |-> TRUE, kind |-> e.kind]
    [] OTHER -> s
RECURSIVE Play(_, _, _, _)
Play(s, evs, i, t) == IF i > Len(evs) \/ evs[i].t > t THEN s ELSE Play(Take(s, evs[i]), evs, i + 1, t)
At(evs, t) == Play(Start, evs, 1, t)
\* ---- shapes: over the world the shape depends on the place and the frame shown; an event may force one
FrameAt(starts, t) == Cardinality({i \in 1..Len(starts) : starts[i] <= t})
\* world.w wide stripes; world.shapes repeat, shifted by one in every frame
Stripe(world, x, f) == world.shapes[1 + (((x \div world.w) + f) % Len(world.shapes))]
ShapeAt(world, starts, evs, t) ==
  LET s == At(evs, t) IN
  IF ~s.vis THEN "hidden" ELSE IF Len(world.shapes) = 0 THEN "arrow"
  ELSE IF s.kind # "" THEN s.kind ELSE Stripe(world, X(s, t), FrameAt(starts, t))
\* ---- pulses: a click's ring grows from 4 to its radius for its length, or until the loop ends
Span(c, total) == IF c.t + c.len > total THEN total - c.t ELSE c.len
=============================================================================
