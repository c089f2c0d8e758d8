------------------------------- MODULE NamesMC -------------------------------
(* every two small documents over names that coincide with, begin with, or look
   like an already prefixed form of one another                                *)
EXTENDS Names, Json
CONSTANTS Pool, Tokens, Show
VARIABLES docs, joined
Sub == {s \in {<<>>} \cup {<<a>> : a \in Pool} \cup {<<a, b>> : a, b \in Pool} : Len(s) < 2 \/ s[1] # s[2]}
Doc(k, defs, uses, both) ==
  [ids |-> IF k = "id" THEN [i \in 1..Len(defs) |-> <<defs[i], ToString(<<k, i>>)>>] ELSE <<>>,
   kfs |-> IF k = "kf" THEN [i \in 1..Len(defs) |-> <<defs[i], ToString(<<k, i>>)>>] ELSE <<>>,
   rules |-> IF k = "id" THEN [i \in 1..Len(uses) |-> [r |-> ToString(<<"#", i>>), ids |-> <<uses[i]>>, cls |-> <<>>, anims |-> <<>>]]
             ELSE IF k = "kf" THEN <<[r |-> "run", ids |-> <<>>, cls |-> <<"x">>, anims |-> uses]>>
             ELSE (IF uses = <<>> THEN <<>> ELSE <<[r |-> "both", ids |-> <<>>, cls |-> uses, anims |-> <<>>]>>) \o [i \in 1..Len(uses) |-> [r |-> ToString(<<".", i>>), ids |-> <<>>, cls |-> <<uses[i]>>, anims |-> <<>>]],
   els |-> IF k = "cls" THEN [i \in 1..Len(defs) |-> [l |-> ToString(<<"e", i>>), id |-> "", cls |-> IF both THEN defs ELSE <<defs[i]>>, refs |-> <<>>]]
           ELSE <<[l |-> "u", id |-> IF k = "id" /\ Len(defs) > 0 THEN defs[1] ELSE "", cls |-> <<"x">>, refs |-> IF k = "id" THEN [i \in 1..Len(uses) |-> <<ToString(i), uses[i]>>] ELSE <<>>]>>]
Tag(d, n) == [ids |-> [i \in 1..Len(d.ids) |-> <<d.ids[i][1], d.ids[i][2] \o n>>], kfs |-> [i \in 1..Len(d.kfs) |-> <<d.kfs[i][1], d.kfs[i][2] \o n>>],
              rules |-> [i \in 1..Len(d.rules) |-> [d.rules[i] EXCEPT !.r = @ \o n]], els |-> [i \in 1..Len(d.els) |-> [d.els[i] EXCEPT !.l = @ \o n]]]
Toks == <<"c0_", "c1_">>
Init == docs = <<>> /\ joined = FALSE
Add == /\ ~joined /\ Len(docs) < 2
       /\ \E k \in {"id", "cls", "kf"}, defs \in Sub, uses \in Sub : \E both \in (IF k = "cls" THEN BOOLEAN ELSE {FALSE}) :
             /\ (docs # <<>> => docs[1].k = k)
             /\ LET d == Tag(Doc(k, defs, uses, both), ToString(Len(docs))) IN
                docs' = Append(docs, [k |-> k, defs |-> defs, uses |-> uses, both |-> both, doc |-> d, renamed |-> Renamed(d, Tokens[Len(docs) + 1])])
       /\ UNCHANGED joined
Join == Len(docs) = 2 /\ ~joined /\ joined' = TRUE /\ UNCHANGED docs
Next == Add \/ Join
Spec == Init /\ [][Next]_<<docs, joined>>
Safe == joined => LET w == Joined([i \in 1..2 |-> docs[i].renamed]) IN Isolated(docs, w) /\ Unique(w)
Export == (Show /\ joined) => PrintT("@@" \o ToJson([i \in 1..2 |-> [k |-> docs[i].k, defs |-> docs[i].defs, uses |-> docs[i].uses, both |-> docs[i].both]]))
=============================================================================
