---------------------------- MODULE Trace_Frame -----------------------------
(* The files before and after each of the real commands.  A listing is a   *)
(* sequence of <<area, name, what is there>>.                              *)
EXTENDS Frame, TraceKit
Files(ls) == [p \in {<<ls[i][1], ls[i][2]>> : i \in 1..Len(ls)} |-> LET i == CHOOSE k \in 1..Len(ls) : <<ls[k][1], ls[k][2]>> = p IN ls[i][3]]
TStart(t) == Files(t.before)
\* only what changed is listed: <<area, name, what is there now>>, "" for what is gone
Then(f, ch) == LET c == Files(ch) IN [p \in (DOMAIN f \cup DOMAIN c) \ {x \in DOMAIN c : c[x] = ""} |-> IF p \in DOMAIN c THEN c[p] ELSE f[p]]
TBad(s, ev) ==
  LET g == Then(s, ev.changes) IN
  IF (IF ev.ended = "stopped" THEN KeepsStopped(s, g, ev.q) ELSE Keeps(s, g, ev.q))
  THEN IF ev.ended = "succeeded" /\ ~Made(g, ev.q) THEN ev.q.words \o ": wrote nothing of " \o ToString(ev.q.writes) ELSE ""
  ELSE ev.q.words \o " (" \o ev.ended \o "): changed " \o ToString({p \in Changed(s, g) : p[1] \notin Writes(ev.q)})
TAfter(s, ev) == Then(s, ev.changes)
=============================================================================
