------------------------------ MODULE MC_Report ------------------------------
(***************************************************************************)
(* Two things are explored.  Where documents are kept: a run over any few  *)
(* entries, named with any parts, writes its documents one after another   *)
(* into a tree of files, in any order; no document is ever written         *)
(* outside of the report directory, over another one, or where another one *)
(* needs a directory.  And what the documents show, for every small        *)
(* comparison and all options: the forms tell the same.                    *)
(***************************************************************************)
EXTENDS Report, Json, IOUtils, Functions

CONSTANTS Parts, MaxParts, Entries, Careless, MaxKids

(* ------------------------------------------------ where *)
DocFiles == {"R.html", "R.json"}
\* "%" stands for itself in parts: escaping a part is to be one-to-one
Esc(p) == IF Careless THEN p
          ELSE CASE p = "" -> "%"
                 [] p = "." -> "%2E"
                 [] p = ".." -> "%2E%2E"
                 [] p = "%" -> "%25"
                 [] p = "%2E" -> "%252E"
                 [] p = "%2E%2E" -> "%252E%252E"
                 [] p = "%25" -> "%2525"
                 [] p = "R.html" -> "R%2Ehtml"
                 [] p = "R.json" -> "R%2Ejson"
                 [] OTHER -> p
Base == <<"w", "rep">>
\* the file system's reading of a path
RECURSIVE Walk(_, _)
Walk(at, q) == IF q = <<>> THEN at
               ELSE Walk(CASE Head(q) \in {"", "."} -> at
                           [] Head(q) = ".." -> (IF at = <<>> THEN <<>> ELSE Front(at))
                           [] OTHER -> Append(at, Head(q)), Tail(q))
Dir(e) == LET q == [i \in 1..Len(e) |-> Esc(e[i])]
          IN IF Len(q) > 1 /\ Head(q) = "" THEN Walk(<<>>, q) ELSE Walk(Base, q)

AllEntries == UNION {[1..n -> Parts] : n \in 1..MaxParts} \ {<<"">>}

VARIABLES es,     \* the entries with documents
          fs,     \* path of a file -> the document it holds
          dirs,   \* directories there are
          done,   \* the entries whose documents have been written
          bad     \* a document could not be written where it belongs
vars == <<es, fs, dirs, done, bad>>

Above(p) == {SubSeq(p, 1, i) : i \in 0..Len(p)}
Init == /\ es \in {s \in {{a, b} : a, b \in AllEntries} : Cardinality(s) <= Entries}
        /\ fs = [p \in {Append(Base, f) : f \in DocFiles} |-> <<>>]
        /\ dirs = Above(Base)
        /\ done = {}
        /\ bad = ""
Write(e) == LET d == Dir(e)
                new == {Append(d, f) : f \in DocFiles}
            IN /\ e \notin done
               /\ done' = done \cup {e}
               /\ bad' = IF Above(d) \cap DOMAIN fs # {} THEN "a file where a directory is needed"
                         ELSE IF new \cap dirs # {} THEN "a directory where a file is needed" ELSE bad
               /\ fs' = [p \in DOMAIN fs \cup new |-> IF p \in new THEN e ELSE fs[p]]
               /\ dirs' = dirs \cup Above(d)
               /\ UNCHANGED es
Next == \E e \in es : Write(e)

Contained == \A p \in DOMAIN fs : Len(p) > Len(Base) /\ SubSeq(p, 1, Len(Base)) = Base
Alone == \A e \in done : (\A f \in DocFiles : fs[Append(Dir(e), f)] = e)
TopKept == \A f \in DocFiles : fs[Append(Base, f)] = <<>>
Written == bad = ""

(* ------------------------------------------------ what *)
H0 == [lb |-> "L", ds |-> "D", en |-> "", nm |-> ""]
Nd(cls, e, kids, ch, ig) == [cls |-> cls, label |-> cls, desc |-> cls, ch |-> ch, ig |-> ig, add |-> FALSE, rem |-> FALSE, entry |-> e,
                             plain |-> TRUE, od |-> "", nd |-> "", kids |-> kids, h |-> H0, tx |-> <<>>, m |-> <<>>, pool |-> <<>>, an |-> <<>>, code |-> [l |-> <<>>, r |-> <<>>, diff |-> FALSE], mf |-> FALSE]
Up(cls, e, kids) == LET ch == \E i \in 1..Len(kids) : kids[i].ch
                    IN Nd(cls, e, kids, ch, ch /\ \A i \in 1..Len(kids) : kids[i].ch => kids[i].ig)
Verdicts == {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}
Small(cls) == {Nd(cls, "", <<>>, v[1], v[2]) : v \in Verdicts}
Classes == {Up("JavaClassChange", "", <<a, b>>) : a \in Small("ClassInfoChange"), b \in Small("ClassPoolChange")}
JarKids(e) == {Up("JarClassChange", e, <<k>>) : k \in Classes} \cup {Nd("JarContentChange", e, <<>>, v[1], v[2]) : v \in Verdicts}
Jars == {Up("JarChange", "", <<t, Up("JarContentsChange", "", ks)>>) : t \in Small("JarTypeChange"),
         ks \in {<<>>} \cup {<<k>> : k \in JarKids("a")} \cup {<<a, b>> : a \in JarKids("a"), b \in (IF MaxKids > 1 THEN JarKids("b") ELSE Small("x"))}}
\* a few of the jars
SomeJars == {j \in Jars : Len(j.kids[2].kids) <= 1}
Dists == {Up("DistChange", "", <<a, b>>) : a \in {Up("DistJarChange", "j", <<j>>) : j \in SomeJars} \cup {Nd("DistContentChange", "j", <<>>, v[1], v[2]) : v \in Verdicts},
                                           b \in {Up("DistClassChange", "c", <<k>>) : k \in Classes}}
Roots == Classes \cup Jars \cup Dists
Opts == [si : BOOLEAN, su : BOOLEAN]

RECURSIVE Count(_)
Count(j) == 1 + FoldLeft(LAMBDA a, k : a + Count(k), 0, j.kids)
RECURSIVE Named(_)
Named(j) == {j.desc} \cup UNION {Named(j.kids[i]) : i \in 1..Len(j.kids)}
RECURSIVE LinesOf(_, _, _)
LinesOf(n, o, d) == IF ~Admitted(n, o) THEN 0 ELSE 1 + FoldLeft(LAMBDA a, k : a + LinesOf(k, o, d + 1), 0, Seen(n).kids)
RECURSIVE PageCount(_)
PageCount(n) == 1 + FoldLeft(LAMBDA a, k : a + PageCount(k), 0, PageKids(n))

Tells(root, o) ==
  LET j == JsonDoc(root, o, TRUE)
      ds == Docs(root, <<>>)
      top == Top(root)
  IN /\ Admitted(root, o) => LinesOf(root, o, 0) = Count(j)                            \* as many lines as nodes
     /\ (Exit(root) = 0 /\ ~o.si /\ ~o.su) => (TextDoc(root, o, 0) = "" /\ j.kids = <<>>) \* nothing to tell
     /\ Exit(root) = 1 => (TextDoc(root, o, 0) # "" /\ \E i \in 1..Len(ds) : Exit(ds[i].root) = 1)
     /\ Len(ds) = 1 + Cardinality({d.place : d \in Range(ds)} \ {<<>>})                \* a place for each
     /\ \A d \in Range(ds) : Within(d.root) = SelectSeq(Top(d.root), Reported)          \* each is linked to
     /\ (o.si /\ o.su) => FoldLeft(LAMBDA a, k : a + PageCount(k), 0, top)
                          <= Count(j)                                                  \* a page shows no more
     /\ \A i \in 1..Len(top) : (o.si /\ o.su) => top[i].desc \in Named(j)
ASSUME \A root \in Roots, o \in Opts : Tells(root, o)

\* every instruction is shown once on its side, whatever lines it is on
Code(lines, num) == [num |-> num, base |-> IF lines = <<>> THEN 0 ELSE lines[1], ins |-> [i \in 1..Len(lines) |-> <<lines[i], ToString(i * 2 + 40), "op" \o ToString(i), "a">>]]
Lined == UNION {[1..k -> 3..5] : k \in 0..3}
Count_(rows, x) == FoldLeft(LAMBDA s, row : s + Len(SelectSeq(row, LAMBDA v : v = x)), 0, rows)
ASSUME \A p, q \in Lined, num \in BOOLEAN :
  LET a == Code(p, num)
      b == [Code(q, num) EXCEPT !.ins = [i \in 1..Len(q) |-> <<q[i], ToString(i * 2 + 40), "po" \o ToString(i), "b">>]]
      rows == BothCode(a, b)
  IN /\ \A i \in 1..Len(p) : Count_(rows, "op" \o ToString(i)) = 1
     /\ \A i \in 1..Len(q) : Count_(rows, "po" \o ToString(i)) = 1
     /\ Count_(rows, "a") = Len(p) /\ Count_(rows, "b") = Len(q)
     /\ Len(OneCode(a)) = 2 + Len(p)

(* ------------------------------------------------ for the real code *)
Real == [x \in Parts |-> CASE x = "R.html" -> "JavaClassReport.html" [] x = "R.json" -> "JarReport.json" [] OTHER -> x]
Verd == <<"info", "ignored", "same", "relaid", "info">>
Listed == SetToSeq({[i \in 1..Len(e) |-> Real[e[i]]] : e \in AllEntries})
ScenOf(o) == [entries |-> Listed, kinds |-> [i \in 1..Len(Listed) |-> Verd[((i * 7) % 5) + 1]], si |-> o.si, su |-> o.su]
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({ScenOf(o) : o \in Opts}))
=============================================================================
