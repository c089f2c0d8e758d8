-------------------------------- MODULE Names --------------------------------
(* Documents put together into one.  A document defines things under names (an
   element's id, a style rule by the names its selector needs, an animation) and
   refers to them by name.  On its own, a reference means the document's own
   first such element, last such animation, or every rule whose names the
   element has.  Putting documents together renames each one's names by its own
   token; afterwards every reference must still mean what it meant alone.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* doc: [ids: <<name, thing>>.., kfs: <<name, thing>>.., rules: <<[r, ids, cls]>>..,
        els: <<[l, id, cls, refs: <<site, name>>..]>>..]                        *)
First(seq, n) == LET I == {i \in 1..Len(seq) : seq[i][1] = n} IN IF I = {} THEN "none" ELSE seq[CHOOSE i \in I : \A j \in I : i <= j][2]
Last(seq, n) == LET I == {i \in 1..Len(seq) : seq[i][1] = n} IN IF I = {} THEN "none" ELSE seq[CHOOSE i \in I : \A j \in I : j <= i][2]
In(x, seq) == \E i \in 1..Len(seq) : seq[i] = x
Hits(r, e) == (\A i \in 1..Len(r.ids) : r.ids[i] = e.id) /\ (\A i \in 1..Len(r.cls) : In(r.cls[i], e.cls))
RulesOf(d, e) == {d.rules[i].r : i \in {i \in 1..Len(d.rules) : Hits(d.rules[i], e)}}
RefsOf(d, e) == [k \in 1..Len(e.refs) |-> <<e.refs[k][1], First(d.ids, e.refs[k][2])>>]
RunsOf(d, r) == [k \in 1..Len(r.anims) |-> Last(d.kfs, r.anims[k])]
\* ---- putting together, by prefixing every name with the document's token
Pre(t, n) == IF n = "" THEN "" ELSE t \o n
Renamed(d, t) == [ids |-> [i \in 1..Len(d.ids) |-> <<Pre(t, d.ids[i][1]), d.ids[i][2]>>],
                  kfs |-> [i \in 1..Len(d.kfs) |-> <<Pre(t, d.kfs[i][1]), d.kfs[i][2]>>],
                  rules |-> [i \in 1..Len(d.rules) |-> [r |-> d.rules[i].r, ids |-> [k \in 1..Len(d.rules[i].ids) |-> Pre(t, d.rules[i].ids[k])], cls |-> [k \in 1..Len(d.rules[i].cls) |-> Pre(t, d.rules[i].cls[k])], anims |-> [k \in 1..Len(d.rules[i].anims) |-> Pre(t, d.rules[i].anims[k])]]],
                  els |-> [i \in 1..Len(d.els) |-> [l |-> d.els[i].l, id |-> Pre(t, d.els[i].id), cls |-> [k \in 1..Len(d.els[i].cls) |-> Pre(t, d.els[i].cls[k])], refs |-> [k \in 1..Len(d.els[i].refs) |-> <<d.els[i].refs[k][1], Pre(t, d.els[i].refs[k][2])>>]]]]
Joined(ds) == LET F[i \in 0..Len(ds)] == IF i = 0 THEN [ids |-> <<>>, kfs |-> <<>>, rules |-> <<>>, els |-> <<>>]
                 ELSE [ids |-> F[i - 1].ids \o ds[i].ids, kfs |-> F[i - 1].kfs \o ds[i].kfs, rules |-> F[i - 1].rules \o ds[i].rules, els |-> F[i - 1].els \o ds[i].els] IN F[Len(ds)]
\* what every element of w means when only looked up in w
Meaning(w, els) == [i \in 1..Len(els) |-> <<els[i].l, RulesOf(w, els[i]), RefsOf(w, els[i])>>]
Runs(w, rules) == [i \in 1..Len(rules) |-> <<rules[i].r, RunsOf(w, rules[i])>>]
\* ---- the property: nothing changes its meaning
Isolated(ds, joined) == \A i \in 1..Len(ds) : LET d == ds[i].doc r == ds[i].renamed IN
                          /\ Meaning(d, d.els) = Meaning(joined, r.els) /\ Runs(d, d.rules) = Runs(joined, r.rules)
Unique(w) == \A i, j \in 1..Len(w.ids) : i # j => w.ids[i][1] # w.ids[j][1]
=============================================================================
