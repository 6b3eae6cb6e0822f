----------------------------- MODULE MC_Compare -----------------------------
(***************************************************************************)
(* The comparison of two trees as the walk that performs it: pairs of      *)
(* directories are taken in any order, the names of a pair are split into  *)
(* those on the left, on the right, common files, common directories and   *)
(* those which are of different kinds.  Contents are byte sequences        *)
(* compared by size and checksum first and then chunk by chunk.  When the  *)
(* walk ends every file has been listed exactly once and rightly.          *)
(***************************************************************************)
EXTENDS Compare, TLC, Json, IOUtils
CONSTANTS Names1, Names2, Names3, NBodies, ScenEvery

Bodies == {<<<<0, 1>>, <<1, 0>>, <<0, 1, 0>>>>[i] : i \in 1..NBodies}

\* trees as functions from name to node; absent names are absent
FileN(b) == [f |-> TRUE, b |-> b, d |-> <<>>]
DirN(d) == [f |-> FALSE, b |-> <<>>, d |-> d]
TreesOver(ns, nodes) == UNION {[s -> nodes] : s \in SUBSET ns}
Files == {FileN(b) : b \in Bodies}
T3 == TreesOver(Names3, Files)
T2 == TreesOver(Names2, Files \cup {DirN(t) : t \in T3})
T1 == TreesOver(Names1, Files \cup {DirN(t) : t \in T2})

(* contents: a checksum that collides, and chunks of two bytes *)
Sum(b) == FoldLeft(LAMBDA x, y : (x + y) % 2, 0, b)
Chunk(b, i) == SubSeq(b, 2 * i - 1, IF 2 * i <= Len(b) THEN 2 * i ELSE Len(b))
NChunks(b) == (Len(b) + 1) \div 2
DeepDifferent(x, y) ==
  LET n == IF NChunks(x) > NChunks(y) THEN NChunks(x) ELSE NChunks(y)
  IN \E i \in 1..n : Chunk(x, i) # Chunk(y, i)
Different(x, y) == IF Len(x) = Len(y) /\ Sum(x) = Sum(y) THEN DeepDifferent(x, y) ELSE TRUE
ASSUME \A x, y \in Bodies : Different(x, y) = (x # y)

VARIABLES l, r, todo, out
vars == <<l, r, todo, out>>

RECURSIVE Beneath(_, _)
Beneath(node, p) == IF node.f THEN {p} ELSE UNION {Beneath(node.d[x], Append(p, x)) : x \in DOMAIN node.d}

Init == l \in T1 /\ r \in T1 /\ todo = {<<l, r, <<>>>>} /\ out = {}
Next ==
  \E job \in todo :
    LET a == job[1]
        b == job[2]
        p == job[3]
        common == DOMAIN a \cap DOMAIN b
        mixed == {x \in common : a[x].f # b[x].f}
        files == {x \in common : a[x].f /\ b[x].f}
        subs == {x \in common : ~a[x].f /\ ~b[x].f}
    IN /\ out' = out
             \cup UNION {{<<LEFT, q>> : q \in Beneath(a[x], Append(p, x))} : x \in (DOMAIN a \ DOMAIN b) \cup mixed}
             \cup UNION {{<<RIGHT, q>> : q \in Beneath(b[x], Append(p, x))} : x \in (DOMAIN b \ DOMAIN a) \cup mixed}
             \cup {<<IF Different(a[x].b, b[x].b) THEN DIFF ELSE SAME, Append(p, x)>> : x \in files}
       /\ todo' = (todo \ {job}) \cup {<<a[x].d, b[x].d, Append(p, x)>> : x \in subs}
       /\ UNCHANGED <<l, r>>

\* the declarative partition, with paths and contents flattened
RECURSIVE Flat(_, _)
Flat(t, p) == UNION {IF t[x].f THEN {[p |-> Append(p, x), c |-> t[x].b]} ELSE Flat(t[x].d, Append(p, x)) : x \in DOMAIN t}
Id(b) == CHOOSE i \in 1..NBodies : <<<<0, 1>>, <<1, 0>>, <<0, 1, 0>>>>[i] = b
Done == todo = {} => out = TreeEvents(SetToSeq({[p |-> n.p, c |-> Id(n.c)] : n \in Flat(l, <<>>)}),
                                      SetToSeq({[p |-> n.p, c |-> Id(n.c)] : n \in Flat(r, <<>>)}))
\* nothing is listed under two verdicts at any point
OnceEach == \A x, y \in out : x[2] = y[2] => x = y

(* scenarios: pairs of trees as flat lists, directories included *)
RECURSIVE Rows(_, _)
Rows(t, p) == UNION {IF t[x].f THEN {<<Append(p, x), Id(t[x].b)>>}
                     ELSE {<<Append(p, x), 0>>} \cup Rows(t[x].d, Append(p, x)) : x \in DOMAIN t}
Small == TreesOver(Names2, Files \cup {DirN(t) : t \in T3})
Row(t) == SetToSeq({[p |-> x[1], c |-> x[2]] : x \in Rows(t, <<>>)})
SmallRows == [t \in Small |-> Row(t)]
Pairs == SetToSeq(Small \X Small)
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ LET ps == Pairs
              rs == SmallRows
          IN ndJsonSerialize(IOEnv.SCEN, [i \in 1..(Len(ps) \div ScenEvery) |->
                                            LET q == ps[i * ScenEvery] IN [l |-> rs[q[1]], r |-> rs[q[2]]]])
=============================================================================
