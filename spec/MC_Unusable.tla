---------------------------- MODULE MC_Unusable -----------------------------
(***************************************************************************)
(* A command working through its input: it opens the whole, then takes the *)
(* parts in any order.  What is the same on both sides by its bytes need   *)
(* not be decoded.  Whatever the order, it ends with a verdict the rules   *)
(* allow, and what damages its input never helps it to succeed.            *)
(***************************************************************************)
EXTENDS Unusable, TLC, Json, IOUtils
CONSTANTS Swallow       \* pass over parts which cannot be read (as a check of the properties)

\* a jar, a class and a text in it, a class and a manifest beside it
Dist(s) == << [k |-> "jar", up |-> 0, l |-> s[1][1], r |-> s[1][2]], [k |-> "class", up |-> 1, l |-> s[2][1], r |-> s[2][2]],
              [k |-> "text", up |-> 1, l |-> s[3][1], r |-> s[3][2]], [k |-> "class", up |-> 0, l |-> s[4][1], r |-> s[4][2]],
              [k |-> "manifest", up |-> 0, l |-> s[5][1], r |-> s[5][2]] >>
Jar(s) == << [k |-> "manifest", up |-> 0, l |-> s[1][1], r |-> s[1][2]], [k |-> "class", up |-> 0, l |-> s[2][1], r |-> s[2][2]],
             [k |-> "text", up |-> 0, l |-> s[3][1], r |-> s[3][2]] >>
Class(s) == << [k |-> "class", up |-> 0, l |-> s[1][1], r |-> s[1][2]] >>
Pairs == {<<x, y>> : x \in States, y \in States}
\* all the same but for one or two
Choices(n, two) ==
  LET same == [i \in 1..n |-> <<"a", "a">>] IN
  {[same EXCEPT ![i] = x] : i \in 1..n, x \in Pairs} \cup
  (IF two THEN {[same EXCEPT ![i] = x, ![j] = y] : i \in 1..n, j \in 1..n, x \in Pairs, y \in {<<"a", "b">>, <<"da", "a">>, <<"a", "da">>, <<"da", "da">>, <<"no", "a">>}} ELSE {})
Shut(parts) == [i \in 1..Len(parts) |-> LET p == parts[i] IN
                  IF p.up = 0 THEN p
                  ELSE [p EXCEPT !.l = IF Fine(parts[p.up].l) THEN p.l ELSE "no", !.r = IF Fine(parts[p.up].r) THEN p.r ELSE "no"]]
TopPairs == {<<"good", "good">>} \cup {<<t, "good">> : t \in Tops} \cup {<<"good", t>> : t \in Tops} \cup {<<t, t>> : t \in Tops}
\* there is nothing in a whole that cannot be opened
World(t, parts) == [lt |-> t[1], rt |-> t[2],
                    parts |-> [i \in 1..Len(parts) |-> [parts[i] EXCEPT !.l = IF t[1] = "good" THEN parts[i].l ELSE "no", !.r = IF t[2] = "good" THEN parts[i].r ELSE "no"]]]
\* a class command is given a file, if perhaps not a good one
Sound(q, w) == \A i \in 1..Len(w.parts) : LET p == w.parts[i] IN
                 /\ (q.cmd \in {"classinfo", "classdiff"}) => (p.l # "no" \/ w.lt # "good")
                 /\ (q.cmd = "classdiff") => (p.r # "no" \/ w.rt # "good")
Worlds(mk(_), n, two) == {World(<<"good", "good">>, Shut(mk(s))) : s \in Choices(n, two)} \cup {World(t, mk([i \in 1..n |-> <<"a", "a">>])) : t \in TopPairs}
Ask(cmd, ask, masks) == [cmd |-> cmd, ask |-> ask, masks |-> masks]
Jobs(two) ==
  {[q |-> q, w |-> w] : q \in {Ask("classinfo", {}, FALSE), Ask("classdiff", {}, FALSE), Ask("classdiff", {}, TRUE)}, w \in Worlds(Class, 1, FALSE)} \cup
  {[q |-> q, w |-> w] : q \in {Ask("jarinfo", a, FALSE) : a \in {{}, {"provides"}, {"requires", "manifest"}, {"manifest"}, {"classes"}}} \cup
                             {Ask("jardiff", {}, m) : m \in BOOLEAN} \cup {Ask(x, {}, FALSE) : x \in {"mfq", "mfv", "mfc", "sign"}} \cup {Ask("sign", {"badkey"}, FALSE), Ask("sign", {"badname"}, FALSE), Ask("mfc", {"badname"}, FALSE)}, w \in Worlds(Jar, 3, two)} \cup
  {[q |-> q, w |-> w] : q \in {Ask("distinfo", a, FALSE) : a \in {{"provides"}, {"requires"}}} \cup {Ask("distdiff", {}, m) : m \in BOOLEAN}, w \in Worlds(Dist, 5, two)} \cup
  {[q |-> Ask(x, {"badargs"}, FALSE), w |-> World(<<"good", "good">>, Class([i \in 1..1 |-> <<"a", "a">>]))] : x \in {"classinfo", "classdiff"}} \cup
  {[q |-> Ask(x, {"badargs"}, FALSE), w |-> World(<<"good", "good">>, Jar([i \in 1..3 |-> <<"a", "a">>]))] : x \in {"jarinfo", "jardiff", "mfq", "mfv", "mfc", "sign"}} \cup
  {[q |-> Ask(x, {"badargs"}, FALSE), w |-> World(<<"good", "good">>, Dist([i \in 1..5 |-> <<"a", "a">>]))] : x \in {"distinfo", "distdiff"}}

VARIABLES job, todo, verdict
vars == <<job, todo, verdict>>
Two == "TWO" \in DOMAIN IOEnv
Init == /\ job \in {x \in Jobs(Two) : Sound(x.q, x.w)}
        /\ todo = 1..Len(job.w.parts)
        /\ verdict = "opening"
Q == job.q
W == job.w
Diffing == Q.cmd \in Compares
Open == /\ verdict = "opening"
        /\ verdict' = IF Hopeless(Q) THEN "fails" ELSE IF ~Asked(Q) THEN "succeeds"
                      ELSE IF W.lt # "good" \/ (Diffing /\ W.rt # "good") THEN "fails" ELSE "working"
        /\ UNCHANGED <<job, todo>>
\* a part may be decoded though it need not be
Choose(p) == IF Diffing THEN (IF Differs(p) \/ Q.cmd = "classdiff" THEN {TRUE} ELSE {TRUE, FALSE})
             ELSE IF Needs(Q, p) THEN {TRUE} ELSE IF May(Q, p) THEN {TRUE, FALSE} ELSE {FALSE}
Take == /\ verdict = "working" /\ todo # {}
        /\ \E i \in todo : \E dec \in Choose(W.parts[i]) :
             LET p == W.parts[i]
                 broken == dec /\ (Damaged(p.l) \/ (Diffing /\ Damaged(p.r))) IN
             /\ todo' = todo \ {i}
             /\ verdict' = IF broken THEN (IF Swallow THEN verdict ELSE "fails")
                           ELSE IF Diffing /\ Differs(p) /\ ~Q.masks THEN "fails"
                           ELSE verdict
             /\ UNCHANGED job
\* a manifest that is wanted but not there
Finish == /\ verdict = "working" /\ todo = {}
          /\ verdict' = IF Q.cmd \in {"mfq", "mfv", "sign"} /\ ~\E i \in 1..Len(W.parts) : W.parts[i].k = "manifest" /\ W.parts[i].l # "no" THEN "fails" ELSE "succeeds"
          /\ UNCHANGED <<job, todo>>
Next == Open \/ Take \/ Finish

TypeOK == Consistent(W) /\ verdict \in {"opening", "working", "succeeds", "fails"} /\ todo \subseteq 1..Len(W.parts)
Done == verdict \in {"succeeds", "fails"}
Allowed == Done => verdict \in Verdicts(Q, W)
\* nothing damaged which was needed lies behind a success
Honest == verdict = "succeeds" =>
            \A i \in 1..Len(W.parts) : LET p == W.parts[i] IN
              IF Diffing THEN ~Unread(p) ELSE (Needs(Q, p) /\ Asked(Q)) => ~Damaged(p.l)
\* repairing what is damaged on both sides turns no success into a failure
Mended(s) == CASE s = "da" -> "a" [] s = "db" -> "b" [] OTHER -> s
Mend(w) == [w EXCEPT !.parts = [i \in 1..Len(w.parts) |-> [w.parts[i] EXCEPT !.l = Mended(w.parts[i].l), !.r = Mended(w.parts[i].r)]]]
Mending == verdict = "opening" => ("succeeds" \in Verdicts(Q, W) => "succeeds" \in Verdicts(Q, Mend(W)))
Ends == <>Done

ASSUME ("SCEN" \notin DOMAIN IOEnv) \/
  ndJsonSerialize(IOEnv.SCEN, LET RECURSIVE seq(_)
                                  seq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE y \in x : TRUE IN <<e>> \o seq(x \ {e})
                              IN seq({x \in Jobs(FALSE) : Sound(x.q, x.w)}))
=============================================================================
