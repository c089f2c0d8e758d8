--------------------------------- MODULE Caret ---------------------------------
(* A caret and selections over captured text, following a script of events in time order:
   place (k, off), hide, select (k, a, b, over sweep), clear.  k: which piece of text
   A piece of text is a sequence of runs, each with its characters' places along the line
   (or down the column): [x, y, w, asc, h, size, xs, end, dir]; dir: "l", "r" or "v".
   Lengths in 1/100 px, times in ms.                                              *)
EXTENDS Integers, Sequences
Blank == [shown |-> FALSE, k |-> 0, off |-> 0, sels |-> <<>>]
RECURSIVE Count(_)
Count(runs) == IF runs = <<>> THEN 0 ELSE Len(Head(runs).xs) + Count(Tail(runs))
\* ---- addresses: the place before a character is that character's own, at a boundary the next run's
RECURSIVE Seek(_, _, _)
Seek(runs, j, off) ==
  IF off < 0 \/ j > Len(runs) THEN <<0, 0>>
  ELSE IF off < Len(runs[j].xs) THEN <<j, off + 1>>
  ELSE IF j = Len(runs) THEN (IF off = Len(runs[j].xs) THEN <<j, off + 1>> ELSE <<0, 0>>)
  ELSE Seek(runs, j + 1, off - Len(runs[j].xs))
Valid(runs, off) == Seek(runs, 1, off)[1] # 0
Low(a, b) == IF a < b THEN a ELSE b
High(a, b) == IF a > b THEN a ELSE b
Covered(runs, a, b) == IF a < 0 THEN 0 ELSE High(0, Low(b, Count(runs)) - a)
\* ---- the script
Places(T, evs, t) == \E i \in 1..Len(evs) : evs[i].t = t /\ evs[i].e = "place" /\ Valid(T[evs[i].k], evs[i].off)
LastOn(sels) == IF \E i \in 1..Len(sels) : sels[i].on THEN CHOOSE i \in 1..Len(sels) : sels[i].on /\ \A j \in i + 1..Len(sels) : ~sels[j].on ELSE 0
Take(T, evs, s, e) ==
  CASE e.e = "place" -> IF Valid(T[e.k], e.off) THEN [s EXCEPT !.shown = TRUE, !.k = e.k, !.off = e.off] ELSE s
    [] e.e = "hide" -> IF Places(T, evs, e.t) THEN s ELSE [s EXCEPT !.shown = FALSE]
    [] e.e = "select" -> IF Covered(T[e.k], e.a, e.b) > 0 THEN [s EXCEPT !.sels = Append(@, [k |-> e.k, a |-> e.a, b |-> e.b, t |-> e.t, sweep |-> e.sweep, c |-> e.c, on |-> TRUE])] ELSE s
    [] OTHER -> LET i == LastOn(s.sels) IN IF i = 0 THEN s ELSE [s EXCEPT !.sels[i].on = FALSE]
RECURSIVE Play(_, _, _, _, _)
Play(T, s, evs, i, t) == IF i > Len(evs) \/ evs[i].t > t THEN s ELSE Play(T, Take(T, evs, s, evs[i]), evs, i + 1, t)
At(T, evs, t) == Play(T, Blank, evs, 1, t)
\* how many characters a selection has reached
Reached(T, q, t) == LET n == Covered(T[q.k], q.a, q.b) IN IF q.sweep = 0 \/ t >= q.t + q.sweep THEN n ELSE ((t - q.t) * n) \div q.sweep
\* ---- shapes on screen
CellLo(r, i) == IF i > Len(r.xs) THEN (IF r.dir = "r" THEN r.xs[Len(r.xs)] ELSE r.end) ELSE r.xs[i]
CellHi(r, i) == IF r.dir = "r" THEN (IF i = 1 THEN r.end ELSE r.xs[i - 1]) ELSE (IF i >= Len(r.xs) THEN r.end ELSE r.xs[i + 1])
Round(n) == (n + 50) \div 100
Thick(r) == High(100, 100 * Round(r.size \div 12))
\* from: the leading edge; len: the cell along the line, 0 when it is not known from the captured text
Spot(runs, off) == LET s == Seek(runs, 1, off) r == runs[s[1]] i == s[2] last == i > Len(r.xs) IN
  [r |-> r, from |-> IF r.dir = "r" /\ ~last THEN CellHi(r, i) ELSE CellLo(r, i),
   len |-> IF last THEN (IF r.dir = "v" THEN r.size ELSE 0) ELSE IF CellHi(r, i) <= CellLo(r, i) THEN (IF r.dir = "v" THEN r.size ELSE 0) ELSE High(100, CellHi(r, i) - CellLo(r, i))]
Box(x, y, w, h) == [x |-> x, y |-> y, w |-> w, h |-> h]
\* w = 0: any width, kept to the side the text runs from
CaretBox(runs, off, shape, bar) ==
  LET p == Spot(runs, off) r == p.r len == IF shape = "bar" THEN bar ELSE p.len IN
  IF r.dir = "v" THEN (CASE shape = "bar" -> Box(r.x, p.from, r.w, bar) [] shape = "block" -> Box(r.x, p.from, r.w, len) [] OTHER -> Box(r.x, p.from, Thick(r), len))
  ELSE Box(IF r.dir = "r" THEN p.from - len ELSE p.from, IF shape = "underscore" THEN r.y + r.asc ELSE r.y, len, IF shape = "underscore" THEN Thick(r) ELSE r.h)
\* the part of one run that lies in a..b, counted from the run's start
Part(r, a, b) ==
  IF b <= a \/ b <= 0 \/ a >= Len(r.xs) THEN <<>>
  ELSE LET i == High(a, 0) + 1 j == Low(b, Len(r.xs)) lo == IF r.dir = "r" THEN CellLo(r, j) ELSE CellLo(r, i) hi == IF r.dir = "r" THEN CellHi(r, i) ELSE CellHi(r, j) IN
       <<IF r.dir = "v" THEN Box(r.x, lo, r.w, hi - lo) ELSE Box(lo, r.y, hi - lo, r.h)>>
RECURSIVE Span(_, _, _)
Span(runs, a, b) == IF runs = <<>> THEN <<>> ELSE LET n == Len(Head(runs).xs) IN Part(Head(runs), a, b) \o Span(Tail(runs), a - n, b - n)
\* every box a script shows at t, in order, the last one open when it is still growing (g: extra characters reached)
Tint(bs, c) == [i \in 1..Len(bs) |-> [x |-> bs[i].x, y |-> bs[i].y, w |-> bs[i].w, h |-> bs[i].h, c |-> c]]
RECURSIVE Marks(_, _, _, _)
Marks(T, sels, t, g) == IF sels = <<>> THEN <<>> ELSE LET q == Head(sels) n == Covered(T[q.k], q.a, q.b) IN
  (IF q.on THEN Tint(Span(T[q.k], q.a, q.a + Low(n, Reached(T, q, t) + g)), q.c) ELSE <<>>) \o Marks(T, Tail(sels), t, g)
=============================================================================
