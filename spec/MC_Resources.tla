---------------------------- MODULE MC_Resources ----------------------------
(***************************************************************************)
(* A zipped distribution with a jar in it, being asked, closed and asked   *)
(* again, one operation on files at a time; any of them may fail.          *)
(***************************************************************************)
EXTENDS Resources, Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps,
          KeepPartial,  \* an extraction that fails leaves its directory in use
          LeakJar       \* a jar that cannot be read stays open until the end

Queries == {"contents", "provides"}
VARIABLES pc, op, n, tmp, dirs, fds, contents, jars, answer, faulted, used
vars == <<pc, op, n, tmp, dirs, fds, contents, jars, answer, faulted, used>>

Init == /\ pc = "idle" /\ op = "none" /\ n = 0 /\ tmp = "none" /\ dirs = 0 /\ fds = {}
        /\ contents = "none" /\ jars = "none" /\ answer = "none" /\ faulted = FALSE /\ used = FALSE
Ask == /\ pc = "idle" /\ n < MaxOps
       /\ \E q \in Queries : op' = q
       /\ n' = n + 1 /\ answer' = "none" /\ faulted' = FALSE /\ used' = TRUE
       /\ pc' = CASE op' = "provides" /\ jars # "none" -> "tell"
                  [] contents # "none" -> IF op' = "contents" THEN "tell" ELSE "jar-open"
                  [] tmp # "none" -> "walk"
                  [] OTHER -> "mkdir"
       /\ UNCHANGED <<tmp, dirs, fds, contents, jars>>
Go(p) == pc' = p /\ UNCHANGED <<op, n, answer, faulted, used>>
Mkdir == pc = "mkdir" /\ dirs' = dirs + 1 /\ (IF KeepPartial THEN tmp' = "partial" ELSE UNCHANGED tmp) /\ Go("zip-open") /\ UNCHANGED <<fds, contents, jars>>
ZipOpen == pc = "zip-open" /\ fds' = fds \cup {"zip"} /\ Go("extract") /\ UNCHANGED <<tmp, dirs, contents, jars>>
Extract == pc = "extract" /\ fds' = fds \ {"zip"} /\ tmp' = "full" /\ Go("walk") /\ UNCHANGED <<dirs, contents, jars>>
Walk == pc = "walk" /\ contents' = (IF tmp = "full" THEN "right" ELSE "wrong") /\ Go(IF op = "contents" THEN "tell" ELSE "jar-open") /\ UNCHANGED <<tmp, dirs, fds, jars>>
JarOpen == pc = "jar-open" /\ fds' = fds \cup {"jar"} /\ Go("jar-read") /\ UNCHANGED <<tmp, dirs, contents, jars>>
JarRead == pc = "jar-read" /\ fds' = fds \ {"jar"} /\ jars' = contents /\ Go("tell") /\ UNCHANGED <<tmp, dirs, contents>>
Tell == pc = "tell" /\ pc' = "idle" /\ answer' = (IF op = "contents" THEN contents ELSE jars)
        /\ UNCHANGED <<op, n, tmp, dirs, fds, contents, jars, faulted, used>>
Fault == /\ pc \in {"mkdir", "zip-open", "extract", "jar-open", "jar-read"}
         /\ pc' = "idle" /\ answer' = "error" /\ faulted' = TRUE
         /\ fds' = fds \ ({"zip"} \cup IF LeakJar THEN {} ELSE {"jar"})
         /\ IF pc \in {"zip-open", "extract"} /\ ~KeepPartial THEN dirs' = dirs - 1 ELSE UNCHANGED dirs
         /\ UNCHANGED <<op, n, tmp, contents, jars, used>>
\* (what was collected stays known)
Close == /\ pc = "idle" /\ used /\ n < MaxOps
         /\ n' = n + 1 /\ used' = FALSE /\ op' = "close" /\ answer' = "none" /\ faulted' = FALSE
         /\ dirs' = (IF tmp # "none" THEN dirs - 1 ELSE dirs) /\ tmp' = "none" /\ contents' = "none"
         /\ UNCHANGED <<pc, fds, jars>>
Next == Ask \/ Mkdir \/ ZipOpen \/ Extract \/ Walk \/ JarOpen \/ JarRead \/ Tell \/ Fault \/ Close

Idle == pc = "idle"
Held == Idle => LET m == MayHold("dist-zip", used) IN dirs <= m.dirs /\ fds = {}
Released == Idle /\ ~used => dirs = 0 /\ fds = {}
Truthful == Idle => answer # "wrong" /\ (answer = "error" => faulted)

Ops == {"contents", "provides", "close"}
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/
  ndJsonSerialize(IOEnv.SCEN, LET RECURSIVE seq(_)
                                  seq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE y \in x : TRUE IN <<e>> \o seq(x \ {e})
                              IN seq({[ops |-> o, fault |-> f] : o \in [1..3 -> Ops], f \in SUBSET (1..3)}))
=============================================================================
