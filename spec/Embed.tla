--------------------------------- MODULE Embed ---------------------------------
(* An animated document inside a larger one.  The host runs in a loop of length
   `master`; the document, `period` long, is played from `start` on:
   hold     once at its own speed, then resting on its last moment
   stretch  once, over `window`, then resting on its last moment
   loop     over and over, until the host starts again
   Local is the moment of the document a host moment shows.                      *)
EXTENDS Integers, Sequences, FiniteSets
Window(c) == IF c.mode = "stretch" THEN c.window ELSE c.period
Elapsed(c, t) == t - c.start
Local(c, t) == IF Elapsed(c, t) <= 0 THEN 0
               ELSE IF c.mode = "loop" THEN Elapsed(c, t) % c.period
               ELSE IF Elapsed(c, t) >= Window(c) THEN c.period
               ELSE (Elapsed(c, t) * c.period) \div Window(c)
\* the moments whose local time is a whole number
Whole(c, t) == c.mode = "loop" \/ Elapsed(c, t) <= 0 \/ Elapsed(c, t) >= Window(c) \/ (Elapsed(c, t) * c.period) % Window(c) = 0
\* ---- the same, by moving key moments: stops <<at, value>> of the document, put at their host times
At(c, p) == c.start + (p * Window(c)) \div c.period
Moved(c, stops) == [i \in 1..Len(stops) |-> <<At(c, stops[i][1]), stops[i][2]>>]
\* value of a piecewise linear track at t as <<numerator, denominator>>: still before the first and after the last stop
Value(stops, t) ==
  IF t <= stops[1][1] THEN <<stops[1][2], 1>>
  ELSE IF t >= stops[Len(stops)][1] THEN <<stops[Len(stops)][2], 1>>
  ELSE LET i == CHOOSE i \in 1..Len(stops) - 1 : stops[i][1] <= t /\ t < stops[i + 1][1] a == stops[i] b == stops[i + 1] IN
       <<a[2] * (b[1] - a[1]) + (b[2] - a[2]) * (t - a[1]), b[1] - a[1]>>
Same(a, b) == a[1] * b[2] = b[1] * a[2]
\* ---- cut at the end of the host's loop: what lies beyond is not squeezed in
Cut(c, stops) == LET m == Moved(c, stops) keep == {i \in 1..Len(m) : m[i][1] < c.master} n == Cardinality(keep) IN
                 SubSeq(m, 1, n)
=============================================================================
