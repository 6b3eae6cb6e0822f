--------------------------- MODULE Trace_Signing ---------------------------
(***************************************************************************)
(* Runs of the real signing command, each with a fault at one of its       *)
(* operations on files.  "begin" tells the files there are, then come the  *)
(* operations as they happened, then "end" what there is afterwards.       *)
(* Every moment in between is one at which the process might have ended.   *)
(***************************************************************************)
EXTENDS FileOps, TraceKit

TStart(t) == [had |-> FALSE, fs |-> [dir |-> <<>>, file |-> <<>>, fds |-> {}, used |-> {}], src |-> 0, dst |-> 0, exists |-> FALSE, bound |-> FALSE, failing |-> FALSE, late |-> FALSE, cleanup |-> FALSE]

\* the file system after an operation that was carried out
AfterOp(s, ev) ==
  LET fs == s.fs
      i == IF ev.fd >= 0 THEN OfFd(fs, ev.fd) ELSE FileOf(fs, ev.p)
      r == CASE ev.k = "open" -> OpenFile(fs, ev.fd, ev.p, ev.creat, ev.trunc)
             [] ev.k = "close" -> CloseFd(fs, ev.fd)
             [] ev.k = "write" -> WriteTo(fs, i, ev.at, ev.n)
             [] ev.k = "trunc" -> TruncTo(fs, i, ev.n)
             [] ev.k = "rename" -> RenameTo(fs, ev.p, ev.q)
             [] ev.k = "link" -> LinkTo(fs, ev.p, ev.q)
             [] ev.k = "unlink" -> Unlink(fs, ev.p)
             [] OTHER -> fs
  IN IF ev.k \in {"rename", "link"} /\ ev.q = s.dst THEN [r EXCEPT !.used = @ \cup {FileOf(r, s.dst)}] ELSE r

TAfter(s, ev) ==
  CASE ev.k = "begin" ->
         [had |-> ev.src <= Len(ev.files) /\ ev.files[ev.src].i # 0,
          fs |-> [dir |-> [p \in 1..Len(ev.files) |-> ev.files[p].i], file |-> [p \in 1..Len(ev.inodes) |-> [own |-> ev.inodes[p].own, len |-> ev.inodes[p].len]],
                  fds |-> {}, used |-> {}],
          src |-> ev.src, dst |-> ev.dst, exists |-> ev.dst <= Len(ev.files) /\ ev.files[ev.dst].i # 0,
          bound |-> FALSE, failing |-> FALSE, late |-> FALSE, cleanup |-> FALSE]
    [] ev.k = "end" -> s
    [] OTHER -> IF ~ev.ok
                THEN [s EXCEPT !.failing = TRUE, !.late = s.bound \/ s.late, !.cleanup = s.cleanup \/ ev.k \in {"unlink"}]
                ELSE [s EXCEPT !.fs = AfterOp(s, ev), !.bound = s.bound \/ (ev.k \in {"rename", "link"} /\ ev.q = s.dst)]

\* what the model and the directory must agree about
Disagree(s, ev) ==
  {p \in 1..Len(ev.seen) : LET i == FileOf(s.fs, p) IN (i # 0) # ev.seen[p].there \/ (i # 0 /\ s.fs.file[i].len # ev.seen[p].len)}

TBad(s, ev) ==
  CASE ev.k = "begin" -> ""
    [] ev.k = "end" ->
         LET src == ev.seen[s.src].what
             dst == ev.seen[s.dst].what
         IN IF Disagree(s, ev) # {} THEN "MACHINERY the operations do not account for the files there are " \o ToString(Disagree(s, ev))
            ELSE IF s.src # s.dst /\ src # (IF s.had THEN "old" ELSE "none") THEN "the jar was changed though an output was given"
            ELSE IF ev.exc = "" /\ ~ev.gone /\ dst # "new" THEN "signing succeeded but the signed jar is not there"
            ELSE IF ev.gone /\ ~s.exists THEN ""
            ELSE IF dst \notin {IF s.exists THEN "old" ELSE "none", "new"} THEN "signing failed and left " \o (IF dst = "none" THEN "nothing" ELSE "something else") \o " in its place"
            ELSE IF ev.exc # "" /\ dst = "new" /\ ~s.late /\ ~ev.intr /\ ~ev.gone THEN "signing failed though the jar was replaced"
            ELSE IF ~ev.gone /\ ~ev.intr /\ ~s.cleanup /\ ev.strays # <<>> THEN "signing left files behind"
            ELSE ""
    [] ~ev.ok -> ""
    [] OTHER ->
         LET i == IF ev.fd >= 0 THEN OfFd(s.fs, ev.fd) ELSE FileOf(s.fs, ev.p)
             n == AfterOp(s, ev)
         IN IF ev.k = "open" /\ ~CanOpen(s.fs, ev.p, ev.creat, ev.excl) THEN "MACHINERY opened what cannot be"
            ELSE IF ev.k \in {"write", "trunc"} /\ i = 0 THEN "MACHINERY wrote to nothing"
            ELSE IF s.exists /\ ev.k = "write" /\ ev.n > 0 /\ i \in s.fs.used THEN "the jar is still being written where it is to be"
            ELSE IF s.had /\ s.src # s.dst /\ ~Untouched(n, s.src) THEN "the jar is changed though an output is given"
            ELSE IF s.exists /\ ~Replaceable(n, s.dst) THEN "at a moment the target is neither the old nor the new jar"
            ELSE ""
=============================================================================
