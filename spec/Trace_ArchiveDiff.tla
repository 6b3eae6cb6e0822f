------------------------- MODULE Trace_ArchiveDiff -------------------------
(* Recorded comparisons of real jars and distributions.                    *)
EXTENDS ArchiveDiff, TraceKit

Dup(rows) == ~NoDup(rows)
Tree(t, dir, shallow) ==
  LET fwd == dir = "lr"
      a == IF fwd THEN t.l ELSE t.r
      b == IF fwd THEN t.r ELSE t.l
      af == IF fwd THEN t.lf ELSE t.rf
      bf == IF fwd THEN t.rf ELSE t.lf
  IN IF t.kind = "jar" THEN JarNode(a, af, b, bf, t.bodies) ELSE DistNode(a, b, t.bodies, shallow)

Uses(t, dir, sh) == \E i \in 1..Len(t.steps) : LET e == t.steps[i] IN e.k # "raised" /\ e.dir = dir /\ e.shallow = sh
NoTree == [n |-> "", c |-> FALSE, m |-> {}, k |-> <<>>]
TStart(t) ==
  LET bn == UNION {Names(t.bodies[i].a) : i \in 1..Len(t.bodies)}
      get(d, s) == IF Uses(t, d, s) THEN Tree(t, d, s) ELSE NoTree
  IN [lr |-> get("lr", FALSE), rl |-> get("rl", FALSE), lrs |-> get("lr", TRUE), rls |-> get("rl", TRUE),
      names |-> IF t.kind = "jar" THEN Names(Exploded(t.l)) \cup Names(Exploded(t.r)) ELSE bn,
      paths |-> IF t.kind = "jar" THEN {} ELSE FilesOf(t.l) \cup FilesOf(t.r)]

TreeFor(s, ev) == LET t == CASE ev.dir = "lr" /\ ~ev.shallow -> s.lr [] ev.dir = "rl" /\ ~ev.shallow -> s.rl
                             [] ev.dir = "lr" -> s.lrs [] OTHER -> s.rls
                  IN Masked(t, Options(ev.words, ev.entries, ev.files, ev.keys, s.names, s.paths))

Pieces(p) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "/" \o x, "", p)
RowsDiff(exp, got) ==
  LET d == (exp \ got) \cup (got \ exp)
  IN IF d = {} THEN ""
     ELSE LET x == CHOOSE y \in d : \A z \in d : Len(y[1]) >= Len(z[1])
          IN (IF x \in exp THEN "not reported as it is: " ELSE "wrongly reported: ") \o Pieces(x[1])
             \o " changed=" \o ToString(x[2]) \o " ignored=" \o ToString(x[3])

TBad(s, ev) ==
  CASE ev.k = "raised" -> "raised " \o ev.exc
    [] ev.k = "tree" -> IF Dup(ev.rows) THEN "a node is listed twice" ELSE RowsDiff(Seen(TreeFor(s, ev), <<>>), ToSetOf(ev.rows))
    [] ev.k = "cli" ->
         LET t == TreeFor(s, ev)
         IN IF ev.status # ExitStatus(t) THEN "exit status " \o ToString(ev.status) \o " in " \o ev.mode \o " mode with " \o ToString(ev.words)
            ELSE IF ev.verdict # <<>> /\ ev.verdict # Verdict(t) THEN "the verdict in " \o ev.mode \o " output"
            ELSE ""
TAfter(s, ev) == s
=============================================================================
