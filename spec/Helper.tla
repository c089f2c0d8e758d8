------------------------------- MODULE Helper -------------------------------
(* The channel between the renderer and the native text helper: one long-lived
   process answering a line per request, and a one-shot process per request to
   fall back on.
   A request says how the helper treats it on either route:
     s: "ok"      answers it            "twice"  answers it, then answers it again
        "bye"     answers it and exits  "broken" dies, stalls, or says something unreadable
        "hollow"  says something readable that answers nothing
     o: "ok" or anything else (no answer)                                      *)
EXTENDS Naturals, Sequences
VARIABLES up,      \* a long-lived process is believed to be there
          gone,    \* ... but it has exited
          pipe,    \* requests answered on the channel whose answers were not read
          worked,  \* the channel has answered before
          off,     \* the channel is given up
          serves, ones,   \* long-lived and one-shot processes started so far
          asked, got      \* the requests made, and what the last one received (request number; 0 nothing)
hvars == <<up, gone, pipe, worked, off, serves, ones, asked, got>>
HelpInit == /\ up = FALSE /\ gone = FALSE /\ pipe = <<>> /\ worked = FALSE /\ off = FALSE
            /\ serves = 0 /\ ones = 0 /\ asked = <<>> /\ got = 0
S == [up |-> up, gone |-> gone, pipe |-> pipe, worked |-> worked, off |-> off, serves |-> serves, ones |-> ones]
Me == Len(asked) + 1
Started(x) == [x EXCEPT !.up = TRUE, !.gone = FALSE, !.pipe = <<>>, !.serves = @ + 1]
Down(x) == [x EXCEPT !.up = FALSE, !.gone = FALSE, !.pipe = <<>>, !.off = ~x.worked]
\* what a route leads to: the state and what is received
Once(x, q) == [st |-> [x EXCEPT !.ones = @ + 1], got |-> IF q.o = "ok" THEN Me ELSE 0]
Read(x, more) == [st |-> [x EXCEPT !.pipe = IF Len(x.pipe) = 0 THEN more ELSE SubSeq(x.pipe \o <<Me>> \o more, 2, Len(x.pipe) + 1 + Len(more)), !.worked = TRUE],
                  got |-> IF Len(x.pipe) = 0 THEN Me ELSE x.pipe[1]]
Serve(x, q) ==
  CASE q.s = "ok" -> {Read(x, <<>>)}
    [] q.s = "twice" -> {Read(x, <<Me>>)}
    [] q.s = "bye" -> {[st |-> [Read(x, <<>>).st EXCEPT !.gone = TRUE], got |-> Read(x, <<>>).got]}
    [] q.s = "hollow" -> {Once(Down(x), q), [st |-> [x EXCEPT !.worked = TRUE], got |-> 0], Once([x EXCEPT !.worked = TRUE], q)}
    [] OTHER -> {Once(Down(x), q)}
\* a channel that cannot serve dies at once
Route(q, can) ==
  IF off THEN {Once(S, q)}
  ELSE IF ~can THEN {Once(Down(Started(S)), q)}
  ELSE IF ~up THEN Serve(Started(S), q)
  ELSE IF gone THEN {Once(Down(S), q)} \cup Serve(Started(S), q)
  \* answers nobody waited for are thrown away, with the channel or without
  ELSE IF pipe # <<>> THEN {Once(Down(S), q)} \cup Serve(Started(S), q) \cup Serve([S EXCEPT !.pipe = <<>>], q)
  ELSE Serve(S, q)
Ask(q, can) == \E z \in Route(q, can) :
  /\ up' = z.st.up /\ gone' = z.st.gone /\ pipe' = z.st.pipe /\ worked' = z.st.worked /\ off' = z.st.off
  /\ serves' = z.st.serves /\ ones' = z.st.ones /\ got' = z.got /\ asked' = Append(asked, q)
\* the caches are dropped: the channel with them, and a channel given up gets another try
Clear == /\ up' = FALSE /\ gone' = FALSE /\ pipe' = <<>> /\ off' = FALSE
         /\ UNCHANGED <<worked, serves, ones, asked, got>>
\* the event loop turns: an exit may be noticed, nothing else happens
Turn == /\ IF gone THEN up' \in {FALSE, TRUE} /\ gone' = up' ELSE UNCHANGED <<up, gone>>
        /\ UNCHANGED <<pipe, worked, off, serves, ones, asked, got>>
\* ---- what must hold
OwnAnswer == got \in {0, Len(asked)}
NotRetried == off => ~worked
FallbackOnly == [][ones' > ones => got' = (IF asked'[Len(asked')].o = "ok" THEN Len(asked') ELSE 0)]_hvars
HealthyStays == [][(up /\ ~gone /\ pipe = <<>> /\ asked' # asked /\ asked'[Len(asked')].s \in {"ok", "twice", "bye"}) => (got' = Len(asked') /\ serves' = serves /\ ones' = ones)]_hvars
GivenUpStays == [][(off /\ off') => serves' = serves]_hvars
=============================================================================
