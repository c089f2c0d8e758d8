------------------------------- MODULE TermMC -------------------------------
EXTENDS Term, TLC, Json
CONSTANT Depth
VARIABLES hist
O(o, n, m) == [o |-> o, n |-> n, m |-> m]
Ops == {O("put", 97, 0), O("put", 98, 0), O("put", 200, 0), O("cr", 0, 0), O("lf", 0, 0), O("bs", 0, 0), O("tab", 0, 0), O("cup", 1, 3), O("cup", 2, 1), O("cup", 9, 9), O("up", 1, 0), O("down", 2, 0), O("fwd", 1, 0), O("back", 2, 0), O("col", 2, 0),
  O("el", 0, 0), O("el", 1, 0), O("el", 2, 0), O("ed", 0, 0), O("ed", 1, 0), O("ed", 2, 0), O("il", 1, 0), O("dl", 1, 0), O("ich", 1, 0), O("dch", 1, 0), O("ech", 2, 0), O("su", 1, 0), O("sd", 1, 0), O("ri", 0, 0),
  O("region", 2, 3), O("region", 1, 2), O("attr", 23, 0), O("attr", 400, 0), O("attr", 1202, 0), O("attr", 4805, 0), O("save", 0, 0), O("rest", 0, 0), O("vis", 0, 0), O("wrap", 0, 0), O("alt", 1, 0), O("alt", 0, 0)}
Pre == <<O("put", 120, 0), O("put", 121, 0), O("put", 122, 0), O("put", 119, 0), O("lf", 0, 0), O("put", 118, 0)>>
C == [settle |-> 90, min |-> 300, max |-> 900, tail |-> 500]
Init == TermInit(3, 3, C) /\ hist = <<>>
Do(o) == /\ Len(hist) < Depth /\ hist' = Append(hist, o)
         /\ IF hist = <<>> THEN Out(Append(Pre, o), 200, FALSE) ELSE Out(<<o, O("put", 99, 0)>>, 200, FALSE)
Step == \E o \in Ops : Do(o)
Spec == Init /\ [][Step]_<<vars, hist>>
Export == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
