------------------------------ MODULE FileOps ------------------------------
(***************************************************************************)
(* The part of a filesystem that replacing a file depends on: names bound  *)
(* to files, what of a file is still as it was at first, and open          *)
(* descriptors.                                                            *)
(*                                                                         *)
(*   dir    function from names (numbers) to files, 0 where there is none  *)
(*   file   sequence of [own, len]: own is the number of the name whose    *)
(*          original content it has, untouched, 0 when it was written to   *)
(*   fds    set of <<descriptor, file>>                                    *)
(*   used   files that have had the target's name                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
FileOf(fs, p) == IF p \in DOMAIN fs.dir THEN fs.dir[p] ELSE 0
OfFd(fs, fd) == LET s == {x \in fs.fds : x[1] = fd} IN IF s = {} THEN 0 ELSE (CHOOSE x \in s : TRUE)[2]
Bind(fs, p, i) == [fs EXCEPT !.dir = [x \in DOMAIN fs.dir \cup {p} |-> IF x = p THEN i ELSE FileOf(fs, x)]]
SetFd(fs, fd, i) == [fs EXCEPT !.fds = {x \in fs.fds : x[1] # fd} \cup {<<fd, i>>}]
Touch(fs, i, n) == [fs EXCEPT !.file[i] = [own |-> 0, len |-> n]]

(* operations that succeed; "no" where the model says they cannot *)
CanOpen(fs, p, creat, excl) == IF FileOf(fs, p) = 0 THEN creat ELSE ~excl
OpenFile(fs, fd, p, creat, trunc) ==
  IF FileOf(fs, p) = 0
  THEN LET f == [fs EXCEPT !.file = Append(@, [own |-> 0, len |-> 0])]
       IN SetFd(Bind(f, p, Len(f.file)), fd, Len(f.file))
  ELSE LET i == FileOf(fs, p)
           f == IF trunc /\ fs.file[i].len > 0 THEN Touch(fs, i, 0) ELSE fs
       IN SetFd(f, fd, i)
CloseFd(fs, fd) == [fs EXCEPT !.fds = {x \in fs.fds : x[1] # fd}]
WriteTo(fs, i, at, n) == IF n = 0 THEN fs ELSE Touch(fs, i, Max2(fs.file[i].len, at + n))
TruncTo(fs, i, n) == IF n = fs.file[i].len THEN fs ELSE Touch(fs, i, n)
RenameTo(fs, p, q) == IF FileOf(fs, p) = FileOf(fs, q) THEN fs ELSE Bind(Bind(fs, q, FileOf(fs, p)), p, 0)
LinkTo(fs, p, q) == Bind(fs, q, FileOf(fs, p))
Unlink(fs, p) == Bind(fs, p, 0)

(* what must hold at every moment, whatever happens next *)
\* a file which nothing is to happen to
Untouched(fs, p) == FileOf(fs, p) # 0 /\ fs.file[FileOf(fs, p)].own = p
\* a target that was there: it is as it was, or another file in its place
Replaceable(fs, p) == FileOf(fs, p) # 0 /\ (fs.file[FileOf(fs, p)].own = p \/ FileOf(fs, p) \in fs.used)
\* such a file is complete when it is put there: it is not written any more
Writable(fs, i) == i \notin fs.used
=============================================================================
