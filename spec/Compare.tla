------------------------------- MODULE Compare -------------------------------
(***************************************************************************)
(* Comparison of archives and of directory trees.                          *)
(*                                                                         *)
(* An archive is a sequence of entries [n |-> name, c |-> content]; a name *)
(* ending in a slash is a directory entry, and the last of several entries *)
(* of one name is the one that counts.  Contents are compared by equality  *)
(* only: two are the same exactly when their bytes are.                    *)
(*                                                                         *)
(* A tree is a sequence of nodes [p |-> path, c |-> content], c = 0 for a  *)
(* directory; the directories above a node are there whether listed or     *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Text

LEFT == "left only"
RIGHT == "right only"
DIFF == "changed"
SAME == "same"

Slash == 47
IsDirName(n) == n # <<>> /\ n[Len(n)] = Slash
Names(a) == {a[i].n : i \in 1..Len(a)}
Content(a, n) == LET i == CHOOSE i \in 1..Len(a) : a[i].n = n /\ \A j \in (i + 1)..Len(a) : a[j].n # n
                 IN a[i].c

(* every name present on either side, each once; directory entries on both *)
(* sides hold nothing that could differ and are not listed                 *)
ArchiveEvents(a, b) ==
  LET na == Names(a)
      nb == Names(b)
  IN {<<LEFT, n>> : n \in na \ nb} \cup {<<RIGHT, n>> : n \in nb \ na}
     \cup {<<IF Content(a, n) = Content(b, n) THEN SAME ELSE DIFF, n>> : n \in {m \in na \cap nb : ~IsDirName(m)}}

\* the directories above a name, as directory entries
Above(n) == {SubSeq(n, 1, i) : i \in {j \in 1..(Len(n) - 1) : n[j] = Slash}}
\* an exploded archive: the entries and every directory above one
Exploded(a) ==
  LET ds == UNION {Above(n) : n \in Names(a)} \ Names(a)
  IN a \o [i \in 1..Cardinality(ds) |-> [n |-> SetToSeq(ds)[i], c |-> 0]]

(* directory trees *)
FilesOf(t) == {t[i].p : i \in {j \in 1..Len(t) : t[j].c # 0}}
FileAt(t, p) == t[CHOOSE i \in 1..Len(t) : t[i].p = p].c
DirsOf(t) == {t[i].p : i \in {j \in 1..Len(t) : t[j].c = 0}}
             \cup UNION {Above(t[i].p) : i \in 1..Len(t)}

TreeEvents(a, b) ==
  LET fa == FilesOf(a)
      fb == FilesOf(b)
  IN {<<LEFT, p>> : p \in fa \ fb} \cup {<<RIGHT, p>> : p \in fb \ fa}
     \cup {<<IF FileAt(a, p) = FileAt(b, p) THEN SAME ELSE DIFF, p>> : p \in fa \cap fb}

\* listed exactly once
Exactly(seen, want) == NoDup(seen) /\ ToSetOf(seen) = want
Group(evs, e) == {x[2] : x \in {y \in evs : y[1] = e}}

(* copying: the destination afterwards holds every file of the source with *)
(* its content, and what it held besides                                   *)
AfterCopy(src, dst) ==
  {<<p, FileAt(src, p)>> : p \in FilesOf(src)}
  \cup {<<p, FileAt(dst, p)>> : p \in FilesOf(dst) \ FilesOf(src)}
NoSlashEnd(p) == IF IsDirName(p) THEN SubSeq(p, 1, Len(p) - 1) ELSE p
DirsAfterCopy(src, dst) == {NoSlashEnd(d) : d \in DirsOf(src) \cup DirsOf(dst)}
=============================================================================
