------------------------------- MODULE TrimMC -------------------------------
EXTENDS Trim, TLC, Json
P == 2400
Loops == {[kind |-> "loop", mode |-> m, dur |-> P, delay |-> 0, fill |-> "none", base |-> 0, stops |-> s] :
            m \in {"lin", "step"}, s \in {<< <<0, 0>>, <<1200, 600>>, <<2400, 0>> >>, << <<0, 900>>, <<600, 900>>, <<1000, 100>>, <<2400, 900>> >>, << <<0, 1000>>, <<800, 0>>, <<1600, 800>>, <<2400, 200>> >>}}
Others == {[kind |-> "free", mode |-> "step", dur |-> 1000, delay |-> 0, fill |-> "none", base |-> 0, stops |-> << <<0, 1000>>, <<500, 0>>, <<1000, 1000>> >>],
           [kind |-> "free", mode |-> "lin", dur |-> 700, delay |-> -300, fill |-> "none", base |-> 0, stops |-> << <<0, 0>>, <<700, 700>> >>]}
          \cup {[kind |-> k, mode |-> "lin", dur |-> 400, delay |-> dl, fill |-> f, base |-> 500, stops |-> << <<0, 0>>, <<200, 1000>>, <<400, 200>> >>] :
            k \in {"once", "sched"}, dl \in {0, 700, 1300, 2100}, f \in {"none", "both", "freeze"}}
Wins == {<<0, 1300>>, <<500, 1500>>, <<900, 2400>>, <<1100, 1400>>, <<700, 2300>>, <<600, 1600>>, <<800, 1200>>}
Valid(t) == (t.kind = "once" => t.fill # "freeze") /\ (t.kind = "sched" => t.fill # "both")
Docs == {[tracks |-> <<a, b>>, t0 |-> w[1], t1 |-> w[2], period |-> P] : a \in Loops, b \in {t \in Others : Valid(t)}, w \in Wins}
Init == \E d \in Docs : TrimInit(d)
Step == now < 2 * Win /\ Tick(100)
Spec == Init /\ [][Step]_vars
Export == now = 0 => PrintT("@@" \o ToJson(doc))
=============================================================================
