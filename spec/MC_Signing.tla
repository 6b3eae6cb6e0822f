----------------------------- MODULE MC_Signing -----------------------------
(***************************************************************************)
(* Signing a jar, as operations on files any of which can fail: once, from *)
(* some moment on, for want of space, or by the end of the process.        *)
(*   1 is the jar, 2 the output when one is given, 3 the file the signed   *)
(*   jar is made in, 4 the copy of it beside the target.                   *)
(***************************************************************************)
EXTENDS FileOps, TLC, Json, IOUtils

CONSTANTS Direct,        \* copy onto the target itself (as a check of the properties)
          Pieces         \* writes it takes

Places == {"inplace", "fresh", "over", "same"}
Modes == {"none", "once", "onwards", "full", "crash"}

VARIABLES place, mode, fs, pc, k, broken, failed
vars == <<place, mode, fs, pc, k, broken, failed>>

Target == IF place \in {"inplace", "same"} THEN 1 ELSE 2
Exists == place # "fresh"
FullLen == Pieces * 2

Init ==
  /\ place \in Places /\ mode \in Modes
  /\ fs = [dir |-> [x \in 1..4 |-> IF x = 1 \/ (x = 2 /\ place = "over") THEN x ELSE 0],
           file |-> <<[own |-> 1, len |-> 3], [own |-> 2, len |-> 5]>>, fds |-> {}, used |-> {}]
  /\ pc = "read" /\ k = 0 /\ broken = FALSE /\ failed = FALSE

\* the file system from some moment on refuses (everything, or writes)
Refuses(writing) == broken /\ (mode = "onwards" \/ (mode = "full" /\ writing))
MayBreak(writing) == ~broken /\ (mode \in {"once", "onwards"} \/ (mode = "full" /\ writing))
\* a step that goes well, or fails and leads elsewhere
Try(writing, good, next, onfail) ==
  \/ /\ ~Refuses(writing) /\ good /\ pc' = next /\ UNCHANGED <<broken, failed>>
  \/ /\ (Refuses(writing) \/ MayBreak(writing))
     /\ broken' = TRUE /\ failed' = TRUE /\ pc' = onfail /\ UNCHANGED <<fs, k>>
Same == UNCHANGED <<fs, k>>

Read == pc = "read" /\ Try(FALSE, Same, "tmp", "done")
Tmp == pc = "tmp" /\ Try(FALSE, fs' = OpenFile(fs, 3, 3, TRUE, FALSE) /\ k' = 0, "fill", "done")
Fill == pc = "fill" /\ Try(TRUE, fs' = WriteTo(fs, OfFd(fs, 3), k * 2, 2) /\ k' = k + 1, IF k + 1 = Pieces THEN "look" ELSE "fill", "untmp")
Look == pc = "look" /\ Try(FALSE, k' = 0 /\ UNCHANGED fs, IF Direct THEN "onto" ELSE "make", "untmp")
Make == pc = "make" /\ Try(FALSE, fs' = OpenFile(fs, 4, 4, TRUE, FALSE) /\ UNCHANGED k, "copy", "untmp")
\* a copy may come in pieces of any size
Copy == pc = "copy" /\ \E n \in 1..FullLen :
          /\ n <= FullLen - k
          /\ Try(TRUE, fs' = WriteTo(fs, OfFd(fs, 4), k, n) /\ k' = k + n, IF k + n = FullLen THEN "chmod" ELSE "copy", "unmake")
Chmod == pc = "chmod" /\ Try(FALSE, Same, "rename", "unmake")
Rename == pc = "rename" /\ Try(FALSE, fs' = [RenameTo(fs, 4, Target) EXCEPT !.used = @ \cup {FileOf(fs, 4)}] /\ UNCHANGED k, "untmp", "unmake")
Unmake == pc = "unmake" /\ Try(FALSE, fs' = Unlink(fs, 4) /\ UNCHANGED k, "untmp", "untmp")
Untmp == pc = "untmp" /\ Try(FALSE, fs' = Unlink(fs, 3) /\ UNCHANGED k, "done", "done")
\* the other way to do it
Onto == pc = "onto" /\ Try(FALSE, fs' = OpenFile(fs, 5, Target, TRUE, TRUE) /\ UNCHANGED k, "pour", "untmp")
Pour == pc = "pour" /\ Try(TRUE, fs' = WriteTo(fs, OfFd(fs, 5), k, 2) /\ k' = k + 2, IF k + 2 = FullLen THEN "untmp" ELSE "pour", "untmp")
Crash == mode = "crash" /\ pc \notin {"done", "gone"} /\ pc' = "gone" /\ Same /\ UNCHANGED <<broken, failed>>

Next == /\ \/ Read \/ Tmp \/ Fill \/ Look \/ Make \/ Copy \/ Chmod \/ Rename \/ Unmake \/ Untmp \/ Onto \/ Pour \/ Crash
        /\ UNCHANGED <<place, mode>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the jar is as it was whenever it is not the target *)
InputKept == Target # 1 => Untouched(fs, 1)
(* a target that was there is at every moment the old or a complete new one *)
TargetWhole == Exists => Replaceable(fs, Target)
NewComplete == \A i \in fs.used : fs.file[i].len = FullLen
(* after a failure nothing is there which was not, unless the clean up failed too *)
Settled == pc = "done"
NoHalf == (Settled /\ failed /\ ~Exists) => FileOf(fs, Target) = 0 \/ FileOf(fs, Target) \in fs.used
NoStrays == (Settled /\ ~(broken /\ mode = "onwards") /\ mode # "once") => FileOf(fs, 3) = 0 /\ FileOf(fs, 4) = 0
NoStraysOnce == (Settled /\ mode = "once" /\ (FileOf(fs, 3) # 0 \/ FileOf(fs, 4) # 0)) => FileOf(fs, Target) \in fs.used
Succeeds == (Settled /\ ~failed) => FileOf(fs, Target) \in fs.used
Ends == <>(pc \in {"done", "gone"})

(* what to play with the real code *)
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/
  ndJsonSerialize(IOEnv.SCEN, LET s == {[place |-> p, mode |-> m] : p \in Places, m \in Modes \ {"none"}}
                                  RECURSIVE seq(_)
                                  seq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE y \in x : TRUE IN <<e>> \o seq(x \ {e})
                              IN seq(s))
=============================================================================
