------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* What a command may change.  The files are a function from places to     *)
(* what lies there; a place is in an area: the input, an input that is to  *)
(* be changed, the output, the working directory, the temporary directory, *)
(* or elsewhere.                                                           *)
(*                                                                         *)
(* A command changes places in the areas it was asked to write to, and no  *)
(* other; what it keeps in the temporary directory meanwhile is gone when  *)
(* it ends, in whatever way it ends, unless the whole process was ended.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Areas == {"in", "own", "out", "cwd", "tmp", "keep"}
\* fs: function from <<area, name>> to contents
Changed(f, g) == {p \in DOMAIN f \cup DOMAIN g : ~(p \in DOMAIN f /\ p \in DOMAIN g /\ f[p] = g[p])}
\* the areas a request may write to
Writes(q) == {q.writes[i] : i \in 1..Len(q.writes)}
\* what a request leaves behind, when it ended by itself
Keeps(f, g, q) == \A p \in Changed(f, g) : p[1] \in Writes(q)
\* when it was stopped in the middle it may not have come to clearing up
KeepsStopped(f, g, q) == \A p \in Changed(f, g) : p[1] \in Writes(q) \cup {"tmp"}
\* a success means that what was to be written is there
Made(g, q) == \A a \in Writes(q) : \E p \in DOMAIN g : p[1] = a
=============================================================================
