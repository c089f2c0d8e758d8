-------------------------------- MODULE Term --------------------------------
(* A terminal and the film made of it.  The screen is a fold of the terminal's
   control functions over the whole output; whenever the output pauses the screen
   is photographed, equal consecutive photographs become one, and each is shown
   for the pause it preceded (kept within bounds).
   A cell is ch + 1000 * attr; attr = fg + 10*bg + 100*bold + 200*underline
   + 400*inverse + 800*hidden + 1600*italic + 3200*dim, colours 0 (default) .. 7.  ch 32 is blank, 0 the
   second half of a wide character, 200.. wide characters.                      *)
EXTENDS Integers, Sequences
VARIABLES s,        \* the terminal
          film,     \* <<[rows, start, dur, cur, last]>>
          cfg       \* [settle, min, max, tail]
vars == <<s, film, cfg>>
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Ch(c) == c % 1000
At(c) == c \div 1000
Fg(a) == a % 10
Bg(a) == (a \div 10) % 10
Flag(a, f) == (a \div f) % 2 = 1
Blank == 32
Void(a) == 32 + 1000 * (10 * Bg(a))           \* what erasing leaves: the current background
Line(n, c) == [i \in 1..n |-> c]
Fresh(cols, rows) == [cols |-> cols, rows |-> rows, g |-> [r \in 1..rows |-> Line(cols, Blank)], x |-> 0, y |-> 0, a |-> 0,
  top |-> 0, bot |-> rows - 1, sv |-> <<0, 0, 0>>, vis |-> TRUE, wrap |-> TRUE, alt |-> FALSE, keep |-> <<>>]
Cell(t, x, y) == t.g[y + 1][x + 1]
\* ---- moving whole lines
ShiftUp(t, from, to, n) == [t EXCEPT !.g = [r \in 1..t.rows |-> IF r - 1 < from \/ r - 1 > to THEN t.g[r] ELSE IF r - 1 + n <= to THEN t.g[r + n] ELSE Line(t.cols, Void(t.a))]]
ShiftDown(t, from, to, n) == [t EXCEPT !.g = [r \in 1..t.rows |-> IF r - 1 < from \/ r - 1 > to THEN t.g[r] ELSE IF r - 1 - n >= from THEN t.g[r - n] ELSE Line(t.cols, Void(t.a))]]
Down(t) == IF t.y = t.bot THEN ShiftUp(t, t.top, t.bot, 1) ELSE IF t.y < t.rows - 1 THEN [t EXCEPT !.y = @ + 1] ELSE t
In(t) == IF t.x > t.cols - 1 THEN [t EXCEPT !.x = t.cols - 1] ELSE t
Over(t, y, a, b, c) == [t EXCEPT !.g[y + 1] = [i \in 1..t.cols |-> IF i - 1 >= a /\ i - 1 < b THEN c ELSE @[i]]]
\* erasing half of a wide character blanks its other half as well
Half(t, x, y) == x > 0 /\ x < t.cols /\ Ch(t.g[y + 1][x + 1]) = 0
Fill(t, y, a, b, c) == Over(t, y, IF Half(t, a, y) THEN a - 1 ELSE a, IF Half(t, b, y) THEN b + 1 ELSE b, c)
\* ---- printing: writing over half of a wide character blanks the other half
Unpair(t, x, y) == IF x < t.cols /\ x > 0 /\ Ch(Cell(t, x, y)) = 0 THEN [t EXCEPT !.g[y + 1][x] = 32 + 1000 * t.a] ELSE t
Heal(t, y, x) == IF x < t.cols /\ Ch(Cell(t, x, y)) = 0 THEN [t EXCEPT !.g[y + 1][x + 1] = 32 + 1000 * t.a] ELSE t
Wide(c) == c >= 200
Put(t, c) == LET w == IF Wide(c) THEN 2 ELSE 1 over == t.x + w > t.cols IN
  IF over /\ w = 2 /\ ~t.wrap THEN [t EXCEPT !.x = t.cols - 1]     \* no room for it: dropped
  ELSE LET tb == IF over /\ w = 2 THEN Over(t, t.y, t.x, t.cols, 32 + 1000 * t.a) ELSE t
           t1 == IF over THEN (IF t.wrap THEN Down([tb EXCEPT !.x = 0]) ELSE [tb EXCEPT !.x = t.cols - w]) ELSE tb
           t2 == Unpair(t1, t1.x, t1.y)
           t3 == [t2 EXCEPT !.g[t2.y + 1][t2.x + 1] = c + 1000 * t2.a]
           t4 == IF w = 2 THEN [t3 EXCEPT !.g[t3.y + 1][t3.x + 2] = 1000 * t3.a] ELSE t3
       IN Heal([t4 EXCEPT !.x = @ + w], t4.y, t4.x + w)
Restore(t) == In([t EXCEPT !.x = t.sv[1], !.y = t.sv[2], !.a = t.sv[3]])
Op(t, o) ==
  CASE o.o = "put" -> Put(t, o.n)
    [] o.o = "cr" -> [t EXCEPT !.x = 0]
    [] o.o = "lf" -> LET u == Down(t) IN In(u)
    [] o.o = "bs" -> LET u == In(t) IN [u EXCEPT !.x = MaxI(0, @ - 1)]
    [] o.o = "tab" -> IF t.x >= t.cols THEN t ELSE [t EXCEPT !.x = MinI(t.cols - 1, 8 * (@ \div 8 + 1))]
    [] o.o = "cup" -> [t EXCEPT !.y = MinI(t.rows - 1, o.n - 1), !.x = MinI(t.cols - 1, o.m - 1)]
    [] o.o = "up" -> LET u == In(t) IN [u EXCEPT !.y = IF u.y >= u.top THEN MaxI(u.top, @ - o.n) ELSE MaxI(0, @ - o.n)]
    [] o.o = "down" -> LET u == In(t) IN [u EXCEPT !.y = IF u.y <= u.bot THEN MinI(u.bot, @ + o.n) ELSE MinI(u.rows - 1, @ + o.n)]
    [] o.o = "fwd" -> LET u == In(t) IN [u EXCEPT !.x = MinI(u.cols - 1, @ + o.n)]
    [] o.o = "back" -> LET u == In(t) IN [u EXCEPT !.x = MaxI(0, @ - o.n)]
    [] o.o = "col" -> LET u == In(t) IN [u EXCEPT !.x = MinI(u.cols - 1, o.n - 1)]
    [] o.o = "el" -> IF o.n = 0 THEN Fill(t, t.y, t.x, t.cols, Void(t.a)) ELSE IF o.n = 1 THEN Fill(t, t.y, 0, t.x + 1, Void(t.a)) ELSE Fill(t, t.y, 0, t.cols, Void(t.a))
    [] o.o = "ed" -> LET u == IF o.n = 0 THEN Fill(t, t.y, t.x, t.cols, Void(t.a)) ELSE IF o.n = 1 THEN Fill(t, t.y, 0, t.x + 1, Void(t.a)) ELSE t IN
         [u EXCEPT !.g = [r \in 1..t.rows |-> IF o.n = 2 \/ (o.n = 0 /\ r - 1 > t.y) \/ (o.n = 1 /\ r - 1 < t.y) THEN Line(t.cols, Void(t.a)) ELSE u.g[r]]]
    [] o.o = "il" -> IF t.y < t.top \/ t.y > t.bot THEN In(t) ELSE [ShiftDown(t, t.y, t.bot, o.n) EXCEPT !.x = 0]
    [] o.o = "dl" -> IF t.y < t.top \/ t.y > t.bot THEN In(t) ELSE [ShiftUp(t, t.y, t.bot, o.n) EXCEPT !.x = 0]
    [] o.o = "ich" -> LET u == In(t) IN [u EXCEPT !.g[u.y + 1] = [i \in 1..u.cols |-> IF i - 1 < u.x THEN @[i] ELSE IF i - 1 < u.x + o.n THEN Void(u.a) ELSE @[i - o.n]]]
    [] o.o = "dch" -> LET u == In(t) IN [u EXCEPT !.g[u.y + 1] = [i \in 1..u.cols |-> IF i - 1 < u.x THEN @[i] ELSE IF i + o.n <= u.cols THEN @[i + o.n] ELSE Void(u.a)]]
    [] o.o = "ech" -> LET u == In(t) IN Fill(u, u.y, u.x, MinI(u.cols, u.x + o.n), Void(u.a))
    [] o.o = "su" -> ShiftUp(t, t.top, t.bot, o.n)
    [] o.o = "sd" -> [ShiftDown([t EXCEPT !.a = 0], t.top, t.bot, o.n) EXCEPT !.a = t.a]    \* (these lines come in plain)
    [] o.o = "ri" -> LET u == In(t) IN IF u.y = u.top THEN ShiftDown(u, u.top, u.bot, 1) ELSE [u EXCEPT !.y = MaxI(0, @ - 1)]
    [] o.o = "region" -> LET b == MinI(o.m, t.rows) IN IF b > o.n THEN [t EXCEPT !.top = o.n - 1, !.bot = b - 1, !.x = 0, !.y = 0] ELSE t
    [] o.o = "attr" -> [t EXCEPT !.a = o.n]
    [] o.o = "save" -> [t EXCEPT !.sv = <<t.x, t.y, t.a>>]
    [] o.o = "rest" -> Restore(t)
    [] o.o = "vis" -> [t EXCEPT !.vis = (o.n = 1)]
    [] o.o = "wrap" -> [t EXCEPT !.wrap = (o.n = 1)]
    [] o.o = "alt" -> IF o.n = 1 THEN (IF t.alt THEN [t EXCEPT !.sv = <<t.x, t.y, t.a>>]
           ELSE [t EXCEPT !.alt = TRUE, !.keep = <<t.g, <<t.x, t.y, t.a>>, t.top, t.bot>>, !.sv = <<t.x, t.y, t.a>>, !.top = 0, !.bot = t.rows - 1, !.g = [r \in 1..t.rows |-> Line(t.cols, Void(t.a))]])
         ELSE Restore(IF ~t.alt THEN t ELSE [t EXCEPT !.alt = FALSE, !.g = t.keep[1], !.sv = t.keep[2], !.top = t.keep[3], !.bot = t.keep[4], !.keep = <<>>])
\* ---- what a photograph shows: colours as seen, invisible text gone, blank ends of lines dropped
Look(c) == LET a == At(c) f == IF Flag(a, 400) THEN (IF Bg(a) = 0 THEN 8 ELSE Bg(a)) ELSE Fg(a)
                          b == IF Flag(a, 400) THEN (IF Fg(a) = 0 THEN 9 ELSE Fg(a)) ELSE Bg(a)
           IN (IF Flag(a, 800) /\ Ch(c) # 0 THEN 32 ELSE Ch(c)) + 1000 * (f + 10 * b + 100 * ((a \div 100) % 2) + 200 * ((a \div 200) % 2) + 1600 * ((a \div 1600) % 4))
\* a blank shows only its background and underline
Seen(c) == LET a == At(c) u == Flag(a, 200) IN IF Ch(c) # 32 THEN c ELSE IF Bg(a) = 0 /\ ~u THEN Blank
           ELSE 32 + 1000 * ((IF u THEN Fg(a) + 200 ELSE 0) + 10 * Bg(a) + (IF Flag(a, 3200) THEN 3200 ELSE 0))
RECURSIVE Ink(_, _)
Ink(row, n) == IF n = 0 THEN 0 ELSE IF row[n] # Blank THEN n ELSE Ink(row, n - 1)
Text(row) == LET q == SelectSeq([i \in DOMAIN row |-> Seen(row[i])], LAMBDA c : Ch(c) # 0) IN SubSeq(q, 1, Ink(q, Len(q)))
Photo(t) == [r \in 1..t.rows |-> Text([i \in 1..t.cols |-> Look(t.g[r][i])])]
\* photographs are the same when every cell is, blank ends aside (a bold blank is a different cell)
RECURSIVE Trim(_, _)
Trim(row, n) == IF n = 0 THEN <<>> ELSE IF row[n] = Blank THEN Trim(row, n - 1) ELSE SubSeq(row, 1, n)
RECURSIVE TrimRows(_, _)
TrimRows(q, n) == IF n = 0 THEN <<>> ELSE IF q[n] = <<>> THEN TrimRows(q, n - 1) ELSE SubSeq(q, 1, n)
Neg(t) == LET q == [r \in 1..t.rows |-> LET row == [i \in 1..t.cols |-> Look(t.g[r][i])] IN Trim(row, t.cols)] IN TrimRows(q, t.rows)
RECURSIVE Run(_, _, _)
Run(t, ops, i) == IF i > Len(ops) THEN t ELSE Run(Op(t, ops[i]), ops, i + 1)
Hold(gap) == MinI(cfg.max, MaxI(cfg.min, gap))
\* output `ops`, after which nothing comes for `gap` ms (the tail, at the end of the recording)
Shoot(t, fl, gap) == LET n == Len(fl) neg == Neg(t) c == [x |-> t.x, y |-> t.y, vis |-> t.vis] IN
  IF n > 0 /\ fl[n].neg = neg THEN [fl EXCEPT ![n].dur = MinI(cfg.max, @ + Hold(gap)), ![n].last = c]
  ELSE Append(fl, [neg |-> neg, rows |-> Photo(t), dur |-> Hold(gap), cur |-> c, last |-> c])
Out(ops, gap, final) == LET t == Run(s, ops, 1) IN s' = t /\ film' = (IF gap >= cfg.settle \/ final THEN Shoot(t, film, gap) ELSE film) /\ UNCHANGED cfg
\* a resize that the program answers by clearing the screen (what survives it otherwise is not specified)
Resize(cols, rows) == s' = [Fresh(cols, rows) EXCEPT !.a = s.a, !.vis = s.vis, !.wrap = s.wrap] /\ UNCHANGED <<film, cfg>>
TermInit(cols, rows, c) == s = Fresh(cols, rows) /\ film = <<>> /\ cfg = c
\* ---- the film as projected: blank leader cut off, frames end to end
RECURSIVE Leader(_)
Leader(fl) == IF Len(fl) > 1 /\ fl[1].neg = <<>> THEN Leader(Tail(fl)) ELSE fl
RECURSIVE Sum(_, _)
Sum(fl, k) == IF k = 0 THEN 0 ELSE Sum(fl, k - 1) + fl[k].dur
Total(fl) == Sum(fl, Len(fl))
FrameAt(fl, t) == CHOOSE k \in 1..Len(fl) : Sum(fl, k - 1) <= t /\ t < Sum(fl, k)
\* a line typed at: this frame's cursor line is the same line of the frame before it, with more typed after it
RECURSIVE Letters(_, _)
Letters(q, n) == IF n = 0 THEN 0 ELSE IF q[n] # 32 THEN n ELSE Letters(q, n - 1)
Plain(row) == LET q == [i \in DOMAIN row |-> Ch(row[i])] IN SubSeq(q, 1, Letters(q, Len(q)))
Starts(a, b) == Len(b) > Len(a) /\ SubSeq(b, 1, Len(a)) = a
Typing(fl, k) == k > 1 /\ LET y == fl[k].cur.y + 1 IN y <= Len(fl[k - 1].rows) /\ LET p == fl[k - 1].rows[y] a == Plain(p) b == Plain(fl[k].rows[y]) IN a # <<>> /\ Len(a) = Len(p) /\ Starts(a, b)
\* ---- what the machine guarantees
InScreen == s.x \in 0..s.cols /\ s.y \in 0..(s.rows - 1) /\ s.top < s.bot + 1 /\ s.bot < s.rows
Shape == Len(s.g) = s.rows /\ \A r \in 1..s.rows : Len(s.g[r]) = s.cols
Pairs == \A r \in 1..s.rows : \A i \in 1..s.cols : Ch(s.g[r][i]) = 0 => i > 1 /\ Wide(Ch(s.g[r][i - 1]))
Distinct == \A k \in 2..Len(film) : film[k].neg # film[k - 1].neg
Bounded == \A k \in 1..Len(film) : film[k].dur >= cfg.min /\ film[k].dur <= cfg.max
=============================================================================
