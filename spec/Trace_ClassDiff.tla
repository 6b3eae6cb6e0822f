-------------------------- MODULE Trace_ClassDiff --------------------------
(* Recorded comparisons of pairs of classes against ClassDiff.            *)
EXTENDS ClassDiff, TraceKit

Pieces(p) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "/" \o x, "", p)

TStart(t) == LET x == Class(t.l) y == Class(t.r)
             IN [l |-> x, r |-> y, lr |-> Facets(x, y), rl |-> Facets(y, x)]

RowsDiff(exp, got) ==
  LET d == (exp \ got) \cup (got \ exp)
  IN IF d = {} THEN ""
     ELSE LET x == CHOOSE y \in d : \A z \in d : Len(y[1]) >= Len(z[1])
          IN (IF x \in exp THEN "not reported as it is: " ELSE "wrongly reported: ") \o Pieces(x[1])
             \o " changed=" \o ToString(x[2]) \o " ignored=" \o ToString(x[3])

TreeOf(s, ev) == Resolve(IF ev.dir = "lr" THEN s.lr ELSE s.rl, Expand(ev.opts))

TBad(s, ev) ==
  CASE ev.k = "tree" ->
       IF Len(ev.rows) # Cardinality(ToSetOf(ev.rows)) THEN "a node is listed twice"
       ELSE RowsDiff(Rows_(TreeOf(s, ev)), ToSetOf(ev.rows))
    [] ev.k = "cli" ->
       LET t == TreeOf(s, ev)
       IN IF ev.status # ExitStatus(t) THEN "exit status " \o ToString(ev.status) \o " in " \o ev.mode \o " mode"
          ELSE IF ev.verdict # <<>> /\ ev.verdict # <<t.c, t.i>> THEN "the verdict in " \o ev.mode \o " output"
          ELSE ""
    [] ev.k = "raised" -> "raised " \o ev.exc
    [] OTHER -> "unexpected step"
TAfter(s, ev) == s

=============================================================================
