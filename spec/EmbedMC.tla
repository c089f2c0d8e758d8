-------------------------------- MODULE EmbedMC --------------------------------
(* every small document track, placement and mode: moving the key moments shows
   exactly the document's own moments, and never touches what lies outside      *)
EXTENDS Embed, TLC, Json
CONSTANTS Periods, Starts, Masters, Vals, Show
VARIABLES c, mid, t
vars == <<c, mid, t>>
Modes == {"hold", "stretch", "loop"}
Init == /\ c \in [mode : Modes, start : Starts, period : Periods, window : UNION {{p, 2 * p} : p \in Periods}, master : Masters]
        /\ c.window \in {c.period, 2 * c.period} /\ (c.mode # "stretch" => c.window = c.period) /\ c.start < c.master
        /\ mid \in {<<v0, v1, v2>> : v0, v1, v2 \in Vals} /\ t = 0
Tick == t < c.master /\ t' = t + 1 /\ UNCHANGED <<c, mid>>
Spec == Init /\ [][Tick]_vars
Stops == <<<<0, mid[1]>>, <<c.period \div 2, mid[2]>>, <<c.period, mid[3]>>>>
Fits == c.start + Window(c) <= c.master
\* moving the stops shows the right moment, as long as they fit into the loop
Moves == (c.mode # "loop" /\ Whole(c, t)) => Same(Value(Moved(c, Stops), t), Value(Stops, Local(c, t)))
\* time only goes forward, never faster than the document's own rate times the stretch
Forward == (c.mode # "loop" /\ t > 0) => Local(c, t) >= Local(c, t - 1)
Rests == (c.mode # "loop" /\ t >= c.start + Window(c)) => Local(c, t) = c.period
Waits == t <= c.start => Local(c, t) = 0
Round == (c.mode = "loop" /\ t >= c.start /\ t + c.period <= c.master) => Local(c, t) = Local(c, t + c.period)
Export == (Show /\ t = 0 /\ mid = <<0, 0, 0>>) => PrintT("@@" \o ToJson(c))
=============================================================================
