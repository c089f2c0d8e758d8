------------------------------ MODULE CaretTrace ------------------------------
(* What a rendered track shows.  cfg: [text, evs, shape, bar, blink, total, coarse, cell]
   at: the caret's boxes and the marked boxes seen                              *)
EXTENDS Caret, TLC, Json, IOUtils, TLCExt
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
C == Traces[tr].cfg
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1
Go == l' = l + 1 /\ UNCHANGED tr
Near(a, b, d) == a - b <= d /\ b - a <= d
Tol == 40
Same(g, w, d) == Near(g.x, w.x, d) /\ Near(g.y, w.y, d) /\ Near(g.w, w.w, d) /\ Near(g.h, w.h, d)
Lit(t) == 2 * (t % C.blink) < C.blink
\* an end-of-text cell is one space wide, whatever that is in the font
Open(runs, off, sh) == sh # "bar" /\ Spot(runs, off).len = 0
SameCaret(g, runs, off) == LET w == CaretBox(runs, off, C.shape, C.bar) IN
  IF Open(runs, off, C.shape) THEN g.w > 90 /\ Near(g.y, w.y, Tol) /\ Near(g.h, w.h, Tol) /\ (IF Spot(runs, off).r.dir = "r" THEN Near(g.x + g.w, w.x, Tol) ELSE Near(g.x, w.x, Tol))
  ELSE Same(g, w, Tol)
AllSame(q, ws, d) == Len(q) = Len(ws) /\ \A i \in 1..Len(q) : q[i].c = ws[i].c /\ Same(q[i], ws[i], d)
Trim(ws) == SelectSeq(ws, LAMBDA b : b.w > 5 /\ b.h > 5)
DoAt == /\ l <= Len(Ev) /\ E.e = "at"
        /\ LET t == E.t % C.total s == At(C.text, C.evs, t) IN
           /\ Len(E.caret) = (IF s.shown /\ Lit(E.t) THEN 1 ELSE 0)
           /\ (s.shown /\ Lit(E.t)) => SameCaret(E.caret[1], C.text[s.k], s.off)
           /\ IF C.coarse THEN \E g \in {0, 1} : AllSame(E.marks, Trim(Marks(C.text, s.sels, t, g)), C.cell + Tol)
              ELSE AllSame(E.marks, Trim(Marks(C.text, s.sels, t, 0)), Tol)
        /\ Go
Next == DoAt
Spec == Init /\ [][Next]_vars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, 0)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE
Verdict == PrintT("@@" \o ToJson([j \in 1..Len(Traces) |-> TLCGet(j)]))
=============================================================================
