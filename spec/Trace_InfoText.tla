---------------------------- MODULE Trace_InfoText ----------------------------
(* What the real information commands print, as text and as JSON. *)
EXTENDS InfoText, TraceKit

\* a class of the case with what it provides and requires under the ignore patterns in effect
Facts(s, x) == [s[x.c] EXCEPT !.prov = x.prov, !.req = x.req]
JarOf(s, j) == [j EXCEPT !.classes = [i \in 1..Len(j.classes) |-> [e |-> j.classes[i].e, f |-> Facts(s, j.classes[i])]]]
TStart(t) == t.classes

\* what may be printed about one thing
Texts(s, ev, x) == CASE ev.on = "class" -> {Text(ClassText(ev.o, Facts(s, x)))}
                     [] ev.on = "jar" -> LET j == JarOf(s, x) IN {Text(JarText(ev.o, j, p)) : p \in Shares(j)}
                     [] ev.on = "dist" -> {Text(DistText(ev.o, x))}
Trees(s, ev, x) == CASE ev.on = "class" -> {ClassTree(ev.o, Facts(s, x))}
                     [] ev.on = "jar" -> LET j == JarOf(s, x) IN {JarTree(ev.o, j, p) : p \in Shares(j)}
                     [] ev.on = "dist" -> {DistTree(ev.o, x)}
RECURSIVE AllTexts(_, _, _)
AllTexts(s, ev, i) == IF i > Len(ev.xs) THEN {""} ELSE {a \o b : a \in Texts(s, ev, ev.xs[i]), b \in AllTexts(s, ev, i + 1)}
Ranged(q) == {q[i] : i \in 1..Len(q)}
\* (for the report) the first thing expected that isn't there
PiecesOf(s, ev, x) == CASE ev.on = "class" -> ClassText(ev.o, Facts(s, x))
                        [] ev.on = "jar" -> LET j == JarOf(s, x) IN JarText(ev.o, j, CHOOSE p \in Shares(j) : TRUE)
                        [] ev.on = "dist" -> DistText(ev.o, x)
RECURSIVE Differs(_, _, _)
Differs(q, out, i) == IF q = <<>> THEN "nothing more" ELSE
  LET n == Len(Head(q)) IN IF i + n - 1 <= Len(out) /\ SubSeq(out, i, i + n - 1) = Head(q) THEN Differs(Tail(q), out, i + n) ELSE Head(q)
TBad(s, ev) ==
  IF ev.exc # "" THEN ev.on \o ": it raised " \o ev.exc
  ELSE IF ~ev.json THEN (IF ev.out \in AllTexts(s, ev, 1) THEN "" ELSE ev.on \o ": expected " \o Differs(Cat([i \in 1..Len(ev.xs) |-> PiecesOf(s, ev, ev.xs[i])]), ev.out, 1))
  ELSE IF Len(ev.trees) # Len(ev.xs) THEN ev.on \o ": a document for each"
  ELSE IF \E i \in 1..Len(ev.xs) : Ranged(ev.trees[i]) \notin Trees(s, ev, ev.xs[i])
       THEN LET i == CHOOSE i \in 1..Len(ev.xs) : Ranged(ev.trees[i]) \notin Trees(s, ev, ev.xs[i])
                w == CHOOSE w \in Trees(s, ev, ev.xs[i]) : TRUE
                g == Ranged(ev.trees[i])
            IN ev.on \o ": JSON lacks " \o ToString({x[1] : x \in w \ g}) \o " has " \o ToString({x[1] : x \in g \ w})
  ELSE ""
TAfter(s, ev) == s
===============================================================================
