--------------------------- MODULE Trace_Unpacker ---------------------------
(* step: [op |-> <<...>>, out |-> observed outcome, srcopen |-> whether the *)
(* underlying stream is still open (streams only)]                          *)
EXTENDS Unpacker, TraceKit

TStart(t) == NewReader(t.kind, t.data, t.pos)

\* any exception satisfies "closed": reading after close fails
OutOk(spec, seen) ==
  IF spec[1] = "closed" THEN seen[1] \in {"closed", "short", "error"}
  ELSE IF spec[1] # seen[1] THEN FALSE
  ELSE IF spec[1] = "short" THEN seen[2] = spec[2] /\ seen[3] = spec[3]
  ELSE seen[2] = spec[2]

TBad(r, s) ==
  LET d == Do(r, s.op)
  IN IF ~OutOk(d.out, s.out)
     THEN "call " \o ToString(s.op) \o " at position " \o ToString(r.pos)
          \o " must give " \o ToString(d.out) \o " but gave " \o ToString(s.out)
     ELSE IF r.kind = "stream" /\ s.srcopen # d.r.open
     THEN "underlying stream open=" \o ToString(s.srcopen) \o " after " \o ToString(s.op[1])
     ELSE ""

TAfter(r, s) == Do(r, s.op).r
=============================================================================
