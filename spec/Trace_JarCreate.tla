-------------------------- MODULE Trace_JarCreate --------------------------
(* Jars made by the real code, in directories filled for the purpose.      *)
EXTENDS JarCreate, TraceKit

TStart(t) == t.bodies
TBad(s, ev) ==
  IF ev.rc # 0 THEN "it did not succeed"
  ELSE IF ~ev.kept THEN "another file was changed"
  ELSE CreateBad({ev.fs[i] : i \in 1..Len(ev.fs)}, ev.cwd, ev.jar, ev.args, {ev.main[i] : i \in 1..Len(ev.main)}, ev.es, DocOf(ev.mf, VERSION))
TAfter(s, ev) == s
=============================================================================
