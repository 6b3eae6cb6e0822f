--------------------------- MODULE Trace_Unusable ---------------------------
(* How the real commands end on input they can or cannot use.              *)
EXTENDS Unusable, TraceKit
AskOf(q) == [cmd |-> q.cmd, ask |-> {q.ask[i] : i \in 1..Len(q.ask)}, masks |-> q.masks]
TStart(t) == t.w
TBad(s, ev) == IF ev.verdict \in Verdicts(AskOf(ev.q), s) THEN ""
               ELSE ev.q.cmd \o " " \o ev.verdict \o " asked for " \o ToString(ev.q.ask) \o (IF ev.q.masks THEN " ignoring everything" ELSE "") \o " of " \o ToString(s)
TAfter(s, ev) == s
=============================================================================
