-------------------------- MODULE Trace_ChangeTree --------------------------
(* Recorded histories of real change trees against ChangeTree.             *)
EXTENDS ChangeTree, TraceKit

SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Node(_)
Node(j) == [k |-> j.k, label |-> j.label, l |-> j.l, r |-> j.r, mask |-> SetOf(j.mask), entry |-> j.entry,
            ch |-> FALSE, desc |-> "", ig |-> FALSE, kids |-> [i \in 1..Len(j.kids) |-> Node(j.kids[i])]]
Opt(x) == [ign |-> SetOf(x.ign), si |-> x.si, su |-> x.su]
Op(op) == IF Len(op) = 3 THEN <<op[1], op[2], Opt(op[3])>> ELSE op

TStart(t) == IF t.t = <<>> THEN <<>> ELSE Node(t.t)

\* every step: the operation, then what was seen
TBad(s, ev) ==
  CASE ev.k = "group" -> IF GroupedOk(ev.objs, ev.types, ev.out) THEN ""
                         ELSE "grouping by type: " \o ToString(ev.out)
    [] ev.k = "raised" -> "raised " \o ev.exc
    [] OTHER ->
       LET n == Do(s, Op(ev.op))
           o == Opt(ev.o)
       IN IF ev.view # View(n, o) THEN "after " \o ToString(ev.op) \o " must be seen " \o ToString(View(n, o))
                                       \o " but was " \o ToString(ev.view)
          ELSE IF ev.simple # Simple(n, o) THEN "simplified form must be " \o ToString(Simple(n, o))
                                       \o " but was " \o ToString(ev.simple)
          ELSE IF ev.json # Simple(n, o) THEN "JSON form must be " \o ToString(Simple(n, o)) \o " but was " \o ToString(ev.json)
          ELSE IF ev.text # TextLines(n, o, 0) THEN "text form must be " \o ToString(TextLines(n, o, 0)) \o " but was " \o ToString(ev.text)
          ELSE ""
TAfter(s, ev) == IF ev.k = "group" THEN s ELSE Do(s, Op(ev.op))
=============================================================================
