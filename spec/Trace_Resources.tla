-------------------------- MODULE Trace_Resources --------------------------
(* Real jars and distributions in use, with faults.  The state says which  *)
(* objects were used since they were opened, and what each kind of thing   *)
(* asked is known to answer.                                               *)
EXTENDS Resources, Sequences, FiniteSets, TraceKit

TStart(t) == [objs |-> [i \in 1..Len(t.objs) |-> [kind |-> t.objs[i], used |-> FALSE, broken |-> FALSE]], known |-> <<>>]

RECURSIVE Sum(_, _)
Sum(objs, i) == IF i > Len(objs) THEN [files |-> 0, dirs |-> 0]
                ELSE LET m == MayHold(objs[i].kind, objs[i].used) s == Sum(objs, i + 1)
                     IN [files |-> m.files + s.files, dirs |-> m.dirs + s.dirs]
Known(s, q) == {s.known[i].a : i \in {j \in 1..Len(s.known) : s.known[j].q = q}}
TAfter(s, ev) ==
  CASE ev.k = "known" -> [s EXCEPT !.known = Append(@, [q |-> ev.q, a |-> ev.a])]
    [] ev.k = "ask" -> [s EXCEPT !.objs[ev.o].used = TRUE]
    [] ev.k \in {"close", "drop"} -> IF ev.a = "error" THEN [s EXCEPT !.objs[ev.o].broken = TRUE]
                                     ELSE [s EXCEPT !.objs[ev.o].used = FALSE, !.objs[ev.o].broken = FALSE]
    [] OTHER -> s
TBad(s, ev) ==
  LET t == TAfter(s, ev)
      m == Sum(t.objs, 1)
  IN CASE ev.k = "known" -> IF ev.files > m.files \/ ev.dirs > m.dirs THEN ev.q \o ": not released" ELSE ""
       [] ev.k = "ask" /\ ~(ev.fault /\ ev.error) /\ ev.a \notin Known(s, ev.q) -> ev.q \o ": answers " \o ev.a \o " and before " \o ToString(Known(s, ev.q))
       [] ev.k = "close" /\ ev.a = "error" /\ ~ev.fault -> "closing fails"
       [] OTHER -> IF ev.files > m.files THEN ev.k \o ": a file is left open"
                   ELSE IF ev.dirs > m.dirs THEN ev.k \o ": a directory is left"
                   ELSE ""
=============================================================================
