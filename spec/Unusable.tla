------------------------------ MODULE Unusable ------------------------------
(***************************************************************************)
(* What a command may say of input it cannot use.                          *)
(*                                                                         *)
(* The input is a tree of parts, each on one or both sides.  A part is     *)
(* there with content "a" or "b", damaged in one of two ways ("da": not    *)
(* decodable as what it is, "db": the same, with other bytes), or absent   *)
(* ("no").  What is damaged of a class, a jar or a manifest is its form;   *)
(* of a text it is the archive's record of its bytes.  The whole itself    *)
(* may be missing, empty, junk, cut short or of the wrong sort.            *)
(*                                                                         *)
(* A command works through what it needs, part by part, in any order.  It  *)
(* succeeds only when it could use all of that; it never passes over what  *)
(* it cannot read, and a comparison never takes what it could not read     *)
(* for the same as something else.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Tops == {"good", "missing", "empty", "junk", "cut", "wrong"}
States == {"no", "a", "b", "da", "db"}
Fine(s) == s \in {"a", "b"}
Damaged(s) == s \in {"da", "db"}

\* a world: [lt, rt: Tops, parts: sequence of [k: kind, up: 0 or the jar it is in, l, r: States]]
\* what is in a jar that is not there or damaged is not there
Consistent(w) == \A i \in 1..Len(w.parts) : LET p == w.parts[i] IN
                   (p.up > 0) => /\ ((~Fine(w.parts[p.up].l)) => (p.l = "no"))
                                 /\ ((~Fine(w.parts[p.up].r)) => (p.r = "no"))

Compares == {"classdiff", "jardiff", "distdiff"}
Makes == {"mfc", "sign"}
Tells == {"classinfo", "jarinfo", "distinfo", "mfq", "mfv"}

(* a request: [cmd, ask: what is asked for, masks: TRUE when everything that
   may be ignored of a difference is] *)

\* what of the left side (its only one) a telling command needs to have
Needs(q, p) ==
  CASE q.cmd = "jarinfo" -> (p.k = "class" /\ ("provides" \in q.ask \/ "requires" \in q.ask)) \/ (p.k = "manifest" /\ "manifest" \in q.ask)
    [] q.cmd = "distinfo" -> p.k \in {"class", "jar"}
    [] q.cmd = "classinfo" -> TRUE
    [] q.cmd \in {"mfq", "mfv"} -> p.k = "manifest" \/ (q.cmd = "mfv" /\ p.k = "text")
    [] q.cmd = "mfc" -> p.k = "text"
    [] q.cmd = "sign" -> p.k \in {"manifest", "text"}
\* what it may look at without needing it
May(q, p) == CASE q.cmd = "mfc" -> p.k = "manifest"
               [] q.cmd = "mfv" -> p.k = "manifest"
               [] q.cmd \in {"mfq", "classinfo", "sign"} -> FALSE
               [] OTHER -> TRUE
\* requests nothing can come of: a key which is none, words that do not make
\* a request, a name (of an entry to be put into a manifest) which the format
\* of manifests cannot hold
Hopeless(q) == q.ask \cap {"badkey", "badargs", "badname"} # {}
Asked(q) == q.cmd # "jarinfo" \/ q.ask # {}

\* (a jar which can be read says nothing beyond what is in it)
Differs(p) == p.l # p.r /\ ~(p.k = "jar" /\ Fine(p.l) /\ Fine(p.r))
\* a difference no option covers: one side of it cannot be read
Unread(p) == Differs(p) /\ p.l # "no" /\ p.r # "no" /\ (Damaged(p.l) \/ Damaged(p.r))

\* what the verdict of a request on a world may be
Verdicts(q, w) ==
  LET P == {w.parts[i] : i \in 1..Len(w.parts)} IN
  IF Hopeless(q) THEN {"fails"}
  ELSE IF q.cmd \in Compares
  THEN IF w.lt # "good" \/ w.rt # "good" THEN {"fails"}
       ELSE IF \E p \in P : Unread(p) \/ (q.cmd = "classdiff" /\ (Damaged(p.l) \/ Damaged(p.r))) THEN {"fails"}
       ELSE IF \E p \in P : Differs(p) THEN (IF q.masks THEN {"succeeds", "fails"} ELSE {"fails"})
       ELSE IF \E p \in P : Damaged(p.l) THEN {"succeeds", "fails"}
       ELSE {"succeeds"}
  ELSE IF ~Asked(q) THEN (IF w.lt = "good" THEN {"succeeds"} ELSE {"succeeds", "fails"})
       ELSE IF w.lt # "good" THEN {"fails"}
       ELSE IF \E p \in P : Needs(q, p) /\ Damaged(p.l) THEN {"fails"}
       ELSE IF q.cmd \in {"mfq", "mfv", "sign"} /\ ~\E p \in P : p.k = "manifest" /\ Fine(p.l) THEN {"fails"}
       ELSE IF \E p \in P : May(q, p) /\ Damaged(p.l) THEN {"succeeds", "fails"}
       ELSE {"succeeds"}
=============================================================================
