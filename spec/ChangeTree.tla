----------------------------- MODULE ChangeTree -----------------------------
(***************************************************************************)
(* Change trees as a state machine: nodes are generic comparisons,         *)
(* additions, removals, composites, and squashed forms of any of them; the *)
(* operations check, collect, simplify and squash act on the tree.         *)
(*                                                                         *)
(* A node is [k, label, l, r, mask, entry, ch, desc, ig, kids]: kind, the  *)
(* two data (leaves), the options any of which masks it, the entry name    *)
(* ("" for none), the verdict reached so far, the kept description and     *)
(* ignored state (squashed nodes), and the children (composites).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Kinds == {"leaf", "add", "rem", "super", "sq", "sqadd", "sqrem"}
IsAdd(n) == n.k \in {"add", "sqadd"}
IsRem(n) == n.k \in {"rem", "sqrem"}
IsSq(n) == n.k \in {"sq", "sqadd", "sqrem"}

Changed(n) == IsAdd(n) \/ IsRem(n) \/ n.ch

\* o = [ign, si, su]: the ignore options, show ignored, show unchanged
RECURSIVE Ignored(_, _)
Ignored(n, o) ==
  /\ Changed(n)
  /\ IF IsSq(n) THEN n.ig
     ELSE IF n.k = "super"
     THEN n.kids # <<>> /\ \A i \in 1..Len(n.kids) : Changed(n.kids[i]) => Ignored(n.kids[i], o)
     ELSE n.mask \cap o.ign # {}

Desc(n) == IF IsSq(n) THEN n.desc
           ELSE IF n.k = "leaf" /\ n.ch THEN n.label \o " changed: " \o n.l \o " to " \o n.r
           ELSE n.label \o (IF Changed(n) THEN " changed" ELSE " unchanged")

RECURSIVE Check(_)
Check(n) ==
  CASE n.k = "leaf" -> [n EXCEPT !.ch = (n.l # n.r)]
    [] n.k = "super" -> LET ks == [i \in 1..Len(n.kids) |-> Check(n.kids[i])]
                        IN [n EXCEPT !.kids = ks, !.ch = (\E i \in 1..Len(ks) : Changed(ks[i]))]
    [] OTHER -> n

Squash(n, o) == [n EXCEPT !.k = IF IsAdd(n) THEN "sqadd" ELSE IF IsRem(n) THEN "sqrem" ELSE "sq",
                          !.ch = Changed(n), !.desc = Desc(n), !.ig = Ignored(n, o), !.kids = <<>>,
                          !.l = "", !.r = ""]
SquashKids(n, o) == IF n.k # "super" THEN n
                    ELSE [n EXCEPT !.kids = [i \in 1..Len(n.kids) |-> Squash(n.kids[i], o)]]

(* operations: <<"check", path>> <<"collect", path>> <<"simplify", path, o>>
   <<"squash", path, o>> squash the children; <<"replace", path, o>> the
   child at the path is replaced by its squashed form                      *)
Act(n, op) ==
  CASE op[1] = "check" -> Check(n)
    [] op[1] = "squash" -> SquashKids(n, op[3])
    [] op[1] = "replace" -> Squash(n, op[3])
    [] OTHER -> n

RECURSIVE AtPath(_, _, _)
AtPath(n, p, op) == IF p = <<>> THEN Act(n, op)
                    ELSE IF n.k # "super" \/ Head(p) > Len(n.kids) THEN n
                    ELSE [n EXCEPT !.kids[Head(p)] = AtPath(n.kids[Head(p)], Tail(p), op)]
Do(n, op) == AtPath(n, op[2], op)

(* what is seen of a tree *)
RECURSIVE View(_, _)
View(n, o) == <<n.label, Changed(n), Ignored(n, o), Desc(n), n.entry, IsAdd(n), IsRem(n),
                [i \in 1..Len(n.kids) |-> View(n.kids[i], o)]>>

\* the simplified form: only the admitted children
Admitted(k, o) == IF Changed(k) THEN o.si \/ ~Ignored(k, o) ELSE o.su
RECURSIVE Simple(_, _)
Simple(n, o) ==
  LET ks == SelectSeq(n.kids, LAMBDA k : Admitted(k, o))
  IN <<n.label, Changed(n), Ignored(n, o), Desc(n), n.entry, IsAdd(n), IsRem(n),
       IF n.k = "leaf" THEN <<n.l, n.r>> ELSE <<>>,
       [i \in 1..Len(ks) |-> Simple(ks[i], o)]>>

\* the lines of the text form: <<depth, description, ignored>>
RECURSIVE TextLines(_, _, _)
TextLines(n, o, d) ==
  IF ~Admitted(n, o) THEN <<>>
  ELSE <<<<d, Desc(n), Ignored(n, o)>>>>
       \o FoldLeft(LAMBDA a, k : a \o TextLines(k, o, d + 1), <<>>, n.kids)

Leaf(lb, l, r, m) == [k |-> "leaf", label |-> lb, l |-> l, r |-> r, mask |-> m, entry |-> "", ch |-> FALSE,
                      desc |-> "", ig |-> FALSE, kids |-> <<>>]
Addn(lb, m) == [Leaf(lb, "", "", m) EXCEPT !.k = "add"]
Remn(lb, m) == [Leaf(lb, "", "", m) EXCEPT !.k = "rem"]
Comp(lb, ks) == [Leaf(lb, "", "", {}) EXCEPT !.k = "super", !.kids = ks]

(* grouping by type: the listed types first and in their order, the others
   after them, grouped; the order within a type is kept *)
OfType(objs, t) == SelectSeq(objs, LAMBDA x : x[1] = t)
GroupedOk(objs, types, out) ==
  LET listed == FoldLeft(LAMBDA a, i : IF \E j \in 1..(i-1) : types[j] = types[i] THEN a
                                       ELSE a \o OfType(objs, types[i]), <<>>, [i \in 1..Len(types) |-> i])
      rest == SelectSeq(objs, LAMBDA x : \A i \in 1..Len(types) : x[1] # types[i])
      tail == SubSeq(out, Len(listed) + 1, Len(out))
  IN /\ Len(out) = Len(objs)
     /\ SubSeq(out, 1, Len(listed)) = listed
     /\ \A i \in 1..Len(rest) : OfType(tail, rest[i][1]) = OfType(rest, rest[i][1])
     /\ \A i, j, m \in 1..Len(tail) : (i < j /\ j < m /\ tail[i][1] = tail[m][1]) => tail[j][1] = tail[i][1]
=============================================================================
