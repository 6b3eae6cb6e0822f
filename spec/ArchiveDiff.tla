---------------------------- MODULE ArchiveDiff ----------------------------
(***************************************************************************)
(* The comparison of two jars and of two distributions as a tree, built    *)
(* from the partition of their entries (Compare), the comparison of        *)
(* classes (ClassDiff) and the meaning of manifests (Manifest).            *)
(*                                                                         *)
(* Nodes are those of ClassDiff; a node may have besides q, tokens which   *)
(* together mask it (the changed attributes of a manifest section).  What  *)
(* the options name are tokens: a plain word for a flag, entry:, file: and *)
(* key: with a name for the patterns.                                      *)
(*                                                                         *)
(* A body is [b |-> bytes] or, for a jar, [a |-> entries, b |-> what tells *)
(* it from other jar files].                                               *)
(***************************************************************************)
EXTENDS ClassDiff, Compare, Manifest, TLC

Tok(kind, text) == kind \o ToString(text)
FLeaf(n, c, m, q) == [n |-> n, c |-> c, m |-> m, q |-> q, k |-> <<>>]
Inner(n, m, kids) == [n |-> n, c |-> \E j \in 1..Len(kids) : kids[j].c, m |-> m, k |-> kids]
RECURSIVE Masked(_, _)
Masked(t, o) ==
  LET ks == [j \in 1..Len(t.k) |-> Masked(t.k[j], o)]
      whole == "q" \in DOMAIN t /\ "anykey" \in o /\ t.q \subseteq o
  IN [n |-> t.n, c |-> t.c, k |-> ks,
      i |-> t.c /\ (t.m \cap o # {} \/ whole \/ (ks # <<>> /\ \A j \in 1..Len(ks) : ks[j].c => ks[j].i))]

Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]

(* ------------------------------------------------------- manifests *)
\* attributes in order: an attribute given again keeps its place
Ordered(ps) ==
  FoldLeft(LAMBDA a, p : LET at == {i \in 1..Len(a) : a[i][1] = p[1]}
                         IN IF at = {} THEN Append(a, p) ELSE [a EXCEPT ![CHOOSE i \in at : TRUE] = p], <<>>, ps)
MainOf(b) == LET s == ReadSections(b).secs IN Ordered(<<<<VERSION, ONE>>>> \o (IF s = <<>> THEN <<>> ELSE s[1]))
SubsOf(b) == LET s == ReadSections(b).secs
                 os == [i \in 1..(Len(s) - 1) |-> Ordered(<<<<NAME, <<>>>>>> \o s[i + 1])]
             IN {os[i] : i \in {j \in 1..Len(os) : \A k \in (j + 1)..Len(os) : os[k][1] # os[j][1]}}
\* the attributes in which two sections differ
KeysBetween(x, y) == {Tok("key:", Lower(p[1])) : p \in (ToSetOf(x) \ ToSetOf(y)) \cup (ToSetOf(y) \ ToSetOf(x))}
SectionName(x) == x[1][2]

ManifestNode(n, l, r, m) ==
  LET a == SubsOf(l)
      b == SubsOf(r)
      na == {SectionName(x) : x \in a}
      nb == {SectionName(x) : x \in b}
      at(S, k) == CHOOSE x \in S : SectionName(x) = k
      both == SetToSeq(na \cap nb)
      gone == SetToSeq(na \ nb)
      new == SetToSeq(nb \ na)
      S == {"manifest_subsections"}
  IN Inner(n, m,
       <<FLeaf("main", MainOf(l) # MainOf(r), {}, KeysBetween(MainOf(l), MainOf(r)))>>
       \o [j \in 1..Len(both) |-> LET x == at(a, both[j]) y == at(b, both[j])
                                  IN FLeaf(Tok("section ", both[j]), x # y, S, KeysBetween(x, y))]
       \o [j \in 1..Len(gone) |-> Leaf(Tok("section removed ", gone[j]), TRUE, S)]
       \o [j \in 1..Len(new) |-> Leaf(Tok("section added ", new[j]), TRUE, S)])

(* ------------------------------------------------------------ jars *)
MANIFEST == Lit("META-INF/MANIFEST.MF")
META == Lit("META-INF/")
InMeta(n) == StartsWith(n, META) /\ IndexFrom(n, Slash, Len(META) + 1) = 0
IsSigFile(n) == InMeta(n) /\ EndsWith(Upper(n), Lit(".SF"))
IsSigBlock(n) == InMeta(n) /\ LET u == Upper(SubSeq(n, Len(META) + 1, Len(n)))
                              IN StartsWith(u, Lit("SIG-")) \/ EndsWith(u, Lit(".RSA")) \/ EndsWith(u, Lit(".DSA")) \/ EndsWith(u, Lit(".EC"))
CLASSEND == Lit(".class")
JarKind(n) == IF n = MANIFEST THEN "manifest" ELSE IF IsSigFile(n) THEN "sigfile" ELSE IF IsSigBlock(n) THEN "sigblock"
              ELSE IF EndsWith(n, CLASSEND) THEN "class" ELSE "other"

JarEntryNode(ev, n, x, y) ==
  LET kind == JarKind(n)
      \* a manifest on one side only is content as any other
      one == IF kind = "manifest" THEN "other" ELSE kind
      m == {Tok("entry:", n)} \cup (IF kind \in {"sigfile", "sigblock"} THEN {"jar_signature"} ELSE {})
      kid == CASE kind = "class" -> Facets(Class(x.b), Class(y.b))
               [] kind = "manifest" -> ManifestNode("manifest", x.b, y.b, {"manifest"})
               [] kind = "sigfile" -> ManifestNode("manifest", x.b, y.b, {"jar_signature"})
               [] OTHER -> Leaf("data", TRUE, {})
  IN CASE ev = LEFT -> Leaf("removed " \o one \o " " \o ToString(n), TRUE, m)
       [] ev = RIGHT -> Leaf("added " \o one \o " " \o ToString(n), TRUE, m)
       [] ev = SAME -> Leaf("both " \o kind \o " " \o ToString(n), FALSE, m)
       [] OTHER -> Inner("both " \o kind \o " " \o ToString(n), m, <<kid>>)

Form(a, f) == IF f = "dir" THEN Exploded(a) ELSE a
BodyAt(bodies, S, n) == IF n \in Names(S) /\ ~IsDirName(n) THEN bodies[Content(S, n)] ELSE [b |-> <<>>]
JarNode(l, lf, r, rf, bodies) ==
  LET a == Form(l, lf)
      b == Form(r, rf)
      evs == SetToSeq(ArchiveEvents(a, b))
  IN Inner("jar", {},
       <<Leaf("type", (lf = "dir") # (rf = "dir"), {}),
         Inner("contents", {}, [j \in 1..Len(evs) |->
            JarEntryNode(evs[j][1], evs[j][2], BodyAt(bodies, a, evs[j][2]), BodyAt(bodies, b, evs[j][2]))])>>)

(* --------------------------------------------------- distributions *)
Endings(ws) == {Lit(ws[i]) : i \in 1..Len(ws)}
JAREND == Endings(<<".ear", ".jar", ".rar", ".sar", ".war">>)
TEXTEND == Endings(<<".bat", ".cert", ".cfg", ".conf", ".dtd", ".html", ".ini", ".properties", ".sh", ".text", ".txt", ".xml">>)
DistKind(p, shallow) ==
  IF shallow THEN "other"
  ELSE IF \E e \in JAREND : EndsWith(p, e) THEN "jar"
  ELSE IF EndsWith(p, CLASSEND) THEN "class"
  ELSE IF \E e \in TEXTEND : EndsWith(p, e) THEN "text"
  ELSE IF p = Lit("MANIFEST.MF") \/ EndsWith(p, Lit("/MANIFEST.MF")) THEN "manifest"
  ELSE "other"

White == {9, 10, 11, 12, 13, 32}
RECURSIVE RStrip(_)
RStrip(t) == IF t # <<>> /\ t[Len(t)] \in White THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
\* nothing but the ends of lines differs
SameLines(x, y) ==
  LET f(b, i) == LET ls == SplitLines(b) IN IF i <= Len(ls) THEN RStrip(ls[i]) ELSE <<>>
      n == IF Len(SplitLines(x)) > Len(SplitLines(y)) THEN Len(SplitLines(x)) ELSE Len(SplitLines(y))
  IN \A i \in 1..n : f(x, i) = f(y, i)

DistEntryNode(ev, p, x, y, bodies, shallow) ==
  LET kind == DistKind(p, shallow)
      one == IF kind \in {"jar", "class"} THEN kind ELSE "other"
      m == {Tok("file:", p)}
      nm == "both " \o kind \o " " \o ToString(p)
  IN CASE ev = LEFT -> Leaf("removed " \o one \o " " \o ToString(p), TRUE, m)
       [] ev = RIGHT -> Leaf("added " \o one \o " " \o ToString(p), TRUE, m)
       [] ev = SAME -> Leaf(nm, FALSE, m)
       [] kind = "class" -> Inner(nm, m, <<Facets(Class(x.b), Class(y.b))>>)
       [] kind = "manifest" -> Inner(nm, m, <<ManifestNode("manifest", x.b, y.b, {"manifest"})>>)
       [] kind = "jar" -> Inner(nm, m, <<JarNode(x.a, "zip", y.a, "zip", bodies)>>)
       [] kind = "text" -> Inner(nm, m \cup (IF SameLines(x.b, y.b) THEN {"trailing_whitespace"} ELSE {}), <<Leaf("data", TRUE, {})>>)
       [] OTHER -> Leaf(nm, TRUE, m)

DistNode(l, r, bodies, shallow) ==
  LET evs == SetToSeq(TreeEvents(l, r))
      body(t, p) == IF p \in FilesOf(t) THEN bodies[FileAt(t, p)] ELSE [b |-> <<>>]
  IN Inner("dist", {}, [j \in 1..Len(evs) |->
       DistEntryNode(evs[j][1], evs[j][2], body(l, evs[j][2]), body(r, evs[j][2]), bodies, shallow)])

(* ---------------------------------------------------------- options *)
\* words as for classes and the flags of jars; patterns for the names that
\* occur; attribute names in any case
Options(words, entries, files, keys, names, paths) ==
  Expand(words)
  \cup {Tok("entry:", n) : n \in {x \in names : GlobAny(entries, x)}}
  \cup {Tok("file:", p) : p \in {x \in paths : GlobAny(files, x)}}
  \cup {Tok("key:", Lower(keys[i])) : i \in 1..Len(keys)}
  \cup (IF keys = <<>> THEN {} ELSE {"anykey"})

\* every node whose parents are changes
RECURSIVE Seen(_, _)
Seen(t, pre) == {<<Append(pre, t.n), t.c, t.i>>}
                \cup (IF t.c THEN UNION {Seen(t.k[j], Append(pre, t.n)) : j \in 1..Len(t.k)} ELSE {})
Verdict(t) == <<t.c, t.i>>
=============================================================================
