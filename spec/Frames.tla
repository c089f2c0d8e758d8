------------------------------- MODULE Frames -------------------------------
(* Playback of a generated animation: the state machine a viewer relies on.
   A plan is a sequence of frames; each frame holds for `hold` ms and then hands
   over to the next frame during `tr` ms (a `cut` hands over instantly).
   The player is always in exactly one phase; the picture seen at an instant is a
   set of contributions [frame, quadrant, permille] at four sample points. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES plan,    \* [frames: Seq([hold, tr, kind]), loopFade: BOOLEAN]
          i,       \* frame whose hold / outgoing transition is running
          ph,      \* "hold" | "trans"
          base,    \* time at which the current phase began
          share    \* how much of the picture the incoming frame has taken so far

vars == <<plan, i, ph, base, share>>

N == Len(plan.frames)
Hold(k) == plan.frames[k].hold
Kind(k) == plan.frames[k].kind
Tr(k)   == IF Kind(k) = "cut" THEN 0 ELSE plan.frames[k].tr
Succ(k) == IF k = N THEN 1 ELSE k + 1

Fade   == {"crossfade", "zoom-in", "zoom-out", "shine", "zoom", "magic-move", "shinep"}
Push   == {"push-left", "push-right", "push-up", "push-down", "scroll", "push"}
Reveal == {"wipe", "iris", "wipe-radial", "wipe-clock", "reveal"}
Free   == {"custom", "pushp"}
Kinds  == Fade \cup Push \cup Reveal \cup Free \cup {"cut"}

Family(k) == IF Tr(k) = 0 THEN "cut"
             ELSE IF Kind(k) \in Fade THEN "fade"
             ELSE IF Kind(k) \in Push THEN "push"
             ELSE IF Kind(k) \in Reveal THEN "reveal" ELSE "free"

RECURSIVE SumUpTo(_)
SumUpTo(k) == IF k = 0 THEN 0 ELSE SumUpTo(k - 1) + Hold(k) + Tr(k)
Period == SumUpTo(N)

PhaseEnd == base + (IF ph = "hold" THEN Hold(i) ELSE Tr(i))

FramesInit(p) == plan = p /\ i = 1 /\ ph = "hold" /\ base = 0 /\ share = 0

(* ---- actions ---- *)
BeginTransition ==                      \* the hold of frame i is over
  /\ ph = "hold" /\ Tr(i) > 0
  /\ ph' = "trans" /\ base' = base + Hold(i) /\ share' = 0
  /\ UNCHANGED <<plan, i>>

Cut ==                                  \* instantaneous hand-over
  /\ ph = "hold" /\ Tr(i) = 0
  /\ i' = Succ(i) /\ base' = base + Hold(i) /\ share' = 0
  /\ UNCHANGED <<plan, ph>>

EndTransition ==                        \* incoming frame has settled
  /\ ph = "trans"
  /\ ph' = "hold" /\ i' = Succ(i) /\ base' = base + Tr(i) /\ share' = 0
  /\ UNCHANGED plan

(* ---- what may be seen ---- *)
\* q is a 4-tuple (one per sample point) of sequences of <<frame, quadrant, permille>>;
\* frame 0 stands for "nothing painted" (or the canvas background).
Weight(pt, S) == LET RECURSIVE W(_)
                     W(n) == IF n = 0 THEN 0
                             ELSE W(n - 1) + (IF pt[n][1] \in S THEN pt[n][3] ELSE 0)
                 IN W(Len(pt))
Solid(q, k)   == \A p \in 1..4 : \E n \in 1..Len(q[p]) :
                     q[p][n][1] = k /\ q[p][n][2] = p /\ q[p][n][3] >= 995
OnlyFrom(q, S) == \A p \in 1..4 : \A n \in 1..Len(q[p]) : q[p][n][3] > 5 => q[p][n][1] \in S
InPlace(q, S)  == \A p \in 1..4 : \A n \in 1..Len(q[p]) :
                     (q[p][n][3] > 5 /\ q[p][n][1] \in S) => q[p][n][2] = p
Taken(q, k) == Weight(q[1], {k}) + Weight(q[2], {k}) + Weight(q[3], {k}) + Weight(q[4], {k})

LastHolds == i = N /\ ~plan.loopFade

SeenInHold(q) == Solid(q, i)
SeenInTrans(q) ==
  IF LastHolds THEN Solid(q, i)                     \* the loop's last frame holds solid
  ELSE IF i = N THEN OnlyFrom(q, {i, 1, 0})         \* loop-fade: dissolve, then restart
  ELSE LET j == Succ(i) IN
       /\ OnlyFrom(q, CASE Family(i) \in {"fade", "free"} -> {0, i, j} [] OTHER -> {i, j})
       /\ Family(i) = "reveal" => InPlace(q, {i, j})
       /\ Kind(i) \in {"crossfade", "shine", "shinep"} => InPlace(q, {i, j})
       /\ Family(i) # "free" => Taken(q, j) >= share - 8
\* at a hand-over instant either side may show, but never a blank canvas
SeenAtSeam(q, k, j) == \A p \in 1..4 : Weight(q[p], {k, j}) >= 990

(* ---- design-level properties (model checked on FramesMC) ---- *)
TypeOK == i \in 1..N /\ ph \in {"hold", "trans"} /\ base >= 0
OnSchedule == LET c == base % Period IN
              IF ph = "hold" THEN c = SumUpTo(i - 1) ELSE c = SumUpTo(i - 1) + Hold(i)
=============================================================================
