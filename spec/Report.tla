------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What a run of a comparison command with reports leaves behind.          *)
(*                                                                         *)
(* A comparison is a tree of changes.  A node has cls (the kind of change),*)
(* label, desc, ch (it is a change), ig (it is ignored under the options), *)
(* add, rem, entry ("" for none), od and nd (the two data, "" for none)    *)
(* and kids.  The comparisons of jars and classes found changed within a   *)
(* distribution or a jar get documents of their own, in which they are the *)
(* root; the document around them only shows that there is one.            *)
(*                                                                         *)
(* The place of a document is the sequence of the entries leading to it.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

(* ------------------------------------------------ documents *)
OwnDoc == [DistJarChange |-> "DistJarReport", DistClassChange |-> "DistClassReport", JarClassChange |-> "JarClassReport"]
DocOf == [DistChange |-> "DistReport", JarChange |-> "JarReport", JavaClassChange |-> "JavaClassReport"]
Reported(n) == n.cls \in DOMAIN OwnDoc /\ n.kids # <<>>

Range_(q) == {q[i] : i \in 1..Len(q)}
Cat(qs) == FoldLeft(LAMBDA a, q : a \o q, <<>>, qs)
Seen(n) == IF Reported(n) THEN [n EXCEPT !.cls = "SquashedChange", !.od = "", !.nd = "", !.kids = <<>>] ELSE n
Orig(n) == IF Reported(n) THEN OwnDoc[n.cls] ELSE ""

\* the changes with documents of their own, in order
Within(root) == SelectSeq(IF root.cls = "JarChange" THEN Cat([i \in 1..Len(root.kids) |-> IF root.kids[i].cls = "JarContentsChange" THEN root.kids[i].kids ELSE <<>>])
                          ELSE IF root.cls = "DistChange" THEN root.kids ELSE <<>>, Reported)

\* the documents: the place and the root of each
RECURSIVE Docs(_, _)
Docs(root, place) ==
  LET w == Within(root)
  IN <<[place |-> place, root |-> root, plain |-> place = <<>>]>>
     \o Cat([i \in 1..Len(w) |->
              LET d == Docs(w[i].kids[1], Append(place, w[i].entry))
              IN [j \in 1..Len(d) |-> [d[j] EXCEPT !.plain = w[i].plain /\ (d[j].plain \/ j = 1)]]])

\* the kind of node as documents name it
Shown(n, top) == IF Reported(n) THEN "SquashedChange" ELSE IF top THEN DocOf[n.cls]
                 ELSE IF n.cls = "JarContentsChange" THEN "JarContentsReport" ELSE n.cls

(* ------------------------------------------------ what is admitted *)
\* o = [si, su]: ignored changes are shown, what is no change is shown
Admitted(n, o) == IF n.ch THEN o.si \/ ~n.ig ELSE o.su

RECURSIVE JsonDoc(_, _, _)
JsonDoc(n, o, top) ==
  LET s == Seen(n)
      ks == SelectSeq(s.kids, LAMBDA k : Admitted(k, o))
  IN [cls |-> Shown(n, top), label |-> n.label, desc |-> n.desc, ch |-> n.ch, ig |-> n.ig, add |-> n.add, rem |-> n.rem,
      entry |-> n.entry, od |-> s.od, nd |-> s.nd, oc |-> Orig(n), x |-> <<>>,
      kids |-> [i \in 1..Len(ks) |-> JsonDoc(ks[i], o, FALSE)]]

RECURSIVE Indent(_)
Indent(d) == IF d = 0 THEN "" ELSE "  " \o Indent(d - 1)
RECURSIVE TextDoc(_, _, _)
TextDoc(n, o, d) ==
  IF ~Admitted(n, o) THEN ""
  ELSE Indent(d) \o n.desc \o (IF n.ch /\ n.ig THEN " [IGNORED]" ELSE "") \o "\n"
       \o (LET ks == Seen(n).kids IN FoldLeft(LAMBDA a, k : a \o TextDoc(k, o, d + 1), "", ks))

\* 1 when there is a change which isn't ignored
Exit(root) == IF root.ch /\ ~root.ig THEN 1 ELSE 0

(* ------------------------------------------------ pages *)
(* A page shows every change whatever is admitted, marked as changed,      *)
(* ignored or unchanged.  Some kinds show their parts in a table.          *)
InfoRows == <<<<"ClassNameChange", "Class Name", TRUE>>, <<"ClassAccessflagsChange", "Class Flags", TRUE>>, <<"ClassSuperclassChange", "Extends", TRUE>>,
              <<"ClassInterfacesChange", "Implements", FALSE>>, <<"ClassVersionChange", "Java Version", TRUE>>, <<"ClassPlatformChange", "Java Platform", TRUE>>,
              <<"ClassSignatureChange", "Generics Signature", FALSE>>, <<"ClassDeprecationChange", "Deprecated", FALSE>>>>
FieldRows == <<<<"FieldNameChange", "Field Name", TRUE>>, <<"FieldTypeChange", "Field Type", TRUE>>, <<"FieldAccessflagsChange", "Field Flags", TRUE>>,
               <<"FieldSignatureChange", "Generics Signature", FALSE>>, <<"FieldConstvalueChange", "Const Value", FALSE>>, <<"FieldDeprecationChange", "Deprecated", FALSE>>>>
MethodRows == <<<<"MethodNameChange", "Method Name", TRUE>>, <<"MethodTypeChange", "Return Type", TRUE>>, <<"MethodParametersChange", "Argument Types", TRUE>>,
                <<"MethodAccessflagsChange", "Method Flags", TRUE>>, <<"MethodSignatureChange", "Generics Signature", FALSE>>, <<"MethodExceptionsChange", "Exceptions", FALSE>>,
                <<"MethodAbstractChange", "Abstract", FALSE>>, <<"MethodDeprecationChange", "Deprecated", FALSE>>>>
KidOf(n, cls) == LET is == {i \in 1..Len(n.kids) : n.kids[i].cls = cls} IN IF is = {} THEN <<>> ELSE <<n.kids[CHOOSE i \in is : TRUE]>>
PartRows(n, spec) ==
  Cat([i \in 1..Len(spec) |->
        Cat([j \in 1..Len(KidOf(n, spec[i][1])) |->
              LET k == KidOf(n, spec[i][1])[j]
              IN IF k.ch THEN <<<<spec[i][2], k.tx[1]>>, <<k.tx[2]>>>>
                 ELSE IF spec[i][3] \/ k.tx[3] THEN <<<<spec[i][2], k.tx[1]>>>> ELSE <<>>])])
If(c, row) == IF c THEN <<row>> ELSE <<>>
MemberRows(m) == <<<<"Method Name", m.name>>, <<"Return Type", m.type>>, <<"Argument Types", m.args>>, <<"Method Flags", m.flags>>>>
                 \o If(m.sig # "", <<"Generics Signature", m.sig>>) \o If(m.exc # "", <<"Exceptions", m.exc>>)
                 \o If(m.abs, <<"Abstract", "True">>) \o If(m.dep, <<"Deprecated", "True">>)
PoolAt(p, i) == IF i <= Len(p) THEN p[i] ELSE <<"", "", "">>
\* (an entry: its type and value as pages can show them, and what tells it from others)
PoolRows(n) ==
  LET a == n.pool[1]
      b == n.pool[2]
      m == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
  IN IF n.ch
     THEN <<<<"Index", "Original Type", "Original Value", "Modified Type", "Modified Value">>>>
          \o [i \in 1..m |-> LET x == PoolAt(a, i)
                                 y == PoolAt(b, i)
                             IN <<ToString(i), x[1], x[2]>> \o (IF x = y THEN <<"", "">> ELSE <<y[1], y[2]>>)]
     ELSE <<<<"Index", "Type", "Value">>>>
          \o Cat([i \in 1..Len(a) |-> If(a[i][1] # "", <<ToString(i), a[i][1], a[i][2]>>)])
AnnoRows(n) ==
  LET a == n.an[1]
      b == n.an[2]
      m == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
  IN IF n.ch THEN <<<<"Index", "Annotation">>, <<"Original", "Changed">>>>
                  \o [i \in 1..m |-> <<ToString(i - 1), IF i <= Len(a) THEN a[i] ELSE "", IF i <= Len(b) THEN b[i] ELSE "">>]
     ELSE <<<<"Index", "Annotation">>>> \o [i \in 1..Len(a) |-> <<ToString(i - 1), a[i]>>]
(* Code is shown by lines: what a side holds for a line, and beside it what *)
(* the other one holds for the line as far from the start of the method.   *)
\* code: [ins: rows <<line, offset, op, args>>, base: the first line (there are numbers), num: there are numbers]
RelLine(c, k) == IF c.num THEN k[1] - c.base ELSE 1
AbsLine(c, k) == IF c.num THEN k[1] ELSE 1
LinesShown(c) == {RelLine(c, c.ins[i]) : i \in 1..Len(c.ins)}
AtLine(c, rel) == SelectSeq(c.ins, LAMBDA k : RelLine(c, k) = rel)
Shown_(c, q, i) == IF i <= Len(q) THEN (IF i = 1 THEN <<ToString(AbsLine(c, q[1]))>> ELSE <<>>) \o <<q[i][2], q[i][3], q[i][4]>>
                   ELSE IF i = Len(q) + 1 THEN <<"">> ELSE <<>>
CodeHead2 == <<<<"Relative", "Original", "Modified">>, <<"line", "line", "offset", "opcode", "args", "line", "offset", "opcode", "args">>>>
CodeHead1 == <<<<"Relative", "Method Code">>, <<"line", "line", "offset", "opcode", "args">>>>
BothCode(a, b) ==
  LET rels == SetToSortSeq(LinesShown(a) \cup LinesShown(b), <)
  IN CodeHead2 \o Cat([j \in 1..Len(rels) |->
       LET x == AtLine(a, rels[j])
           y == AtLine(b, rels[j])
           m == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
       IN [i \in 1..m |-> (IF i = 1 THEN <<ToString(rels[j])>> ELSE <<>>) \o Shown_(a, x, i) \o Shown_(b, y, i)]])
OneCode(a) ==
  CodeHead1 \o [i \in 1..Len(a.ins) |->
       (IF i = 1 \/ AbsLine(a, a.ins[i]) # AbsLine(a, a.ins[i - 1]) THEN <<ToString(RelLine(a, a.ins[i])), ToString(AbsLine(a, a.ins[i]))>> ELSE <<>>)
       \o Tail(a.ins[i])]
NoCode == [ins |-> <<>>, base |-> 0, num |-> FALSE]
CodeRows(n) == LET a == IF n.code.l = <<>> THEN NoCode ELSE n.code.l[1]
                   b == IF n.code.r = <<>> THEN NoCode ELSE n.code.r[1]
               IN IF n.ch \/ n.code.diff THEN BothCode(a, b) ELSE IF n.code.l = <<>> THEN <<>> ELSE OneCode(a)

Rows(n) == CASE n.cls = "MethodCodeChange" -> CodeRows(n)
             [] n.cls = "ClassInfoChange" -> PartRows(n, InfoRows)
             [] n.cls = "FieldChange" -> PartRows(n, FieldRows)
             [] n.cls = "MethodChange" -> PartRows(n, MethodRows)
             [] n.m # <<>> -> MemberRows(n.m[1])
             [] n.pool # <<>> -> PoolRows(n)
             [] n.an # <<>> -> AnnoRows(n)
             [] OTHER -> <<>>

\* which of the parts of a change a page shows as changes of their own
PageKids(n) ==
  CASE Reported(n) -> <<>>
    [] n.cls \in {"ClassInfoChange", "MethodCodeChange"} -> <<>>
    [] n.cls = "FieldChange" -> Cat(<<KidOf(n, "FieldAnnotationsChange"), KidOf(n, "FieldInvisibleAnnotationsChange")>>)
    [] n.cls = "MethodChange" -> Cat(<<KidOf(n, "MethodAnnotationsChange"), KidOf(n, "MethodInvisibleAnnotationsChange"), KidOf(n, "MethodCodeChange")>>)
    [] OTHER -> n.kids
\* the changes at the top of a page; what is in a jar is there in categories
Pos(n) == n.entry # ""
Top(root) == IF root.cls = "JarChange" THEN Cat([i \in 1..Len(root.kids) |-> IF root.kids[i].cls = "JarContentsChange" THEN root.kids[i].kids ELSE <<root.kids[i]>>])
             ELSE root.kids
Grouped(root) == root.cls \in {"JarChange", "DistChange"}

Head_(n) == CASE Reported(n) -> n.h.en \o " [details]"
              [] n.entry # "" -> n.h.en
              [] n.mf -> "The manifest has changed between Jars"
              [] n.cls \in {"ClassInfoChange", "ClassConstantPoolChange", "ClassFieldsChange", "ClassMethodsChange"} -> n.h.lb \o " " \o n.h.ds
              [] n.cls \in {"FieldChange", "MethodChange"} -> n.h.nm
              [] n.cls = "MethodAdded" -> n.h.nm \o " Method Added"
              [] n.cls = "MethodRemoved" -> n.h.nm \o " Method Removed"
              [] OTHER -> n.h.lb
Flags(n) == IF ~n.ch THEN <<"is_unchanged">> ELSE IF n.ig THEN <<"is_changed", "is_ignored">> ELSE <<"is_changed">>
Title(root) == DocOf[root.cls] \o (IF root.h.nm # "" THEN " " \o root.h.nm ELSE "")

\* why node a of a page doesn't show change n ("" when it does)
RECURSIVE PageBad(_, _)
PageBad(n, a) ==
  LET ks == PageKids(n)
      cl == IF Reported(n) THEN <<"SquashedChange", OwnDoc[n.cls]>> ELSE <<n.cls>>
      w == n.cls \o " " \o n.desc
  IN IF a.cls # cl THEN "page: " \o w \o " is shown as " \o ToString(a.cls)
     ELSE IF a.flags # Flags(n) THEN "page: " \o w \o " is marked " \o ToString(a.flags)
     ELSE IF a.text # Head_(n) THEN "page: " \o w \o " is described as " \o a.text
     ELSE IF a.rows # Rows(n)
          THEN "page: the table of " \o w \o " lacks " \o ToString(Range_(Rows(n)) \ Range_(a.rows)) \o " has " \o ToString(Range_(a.rows) \ Range_(Rows(n)))
     ELSE IF Len(a.kids) # Len(ks) THEN "page: " \o w \o " has " \o ToString(Len(a.kids)) \o " parts, not " \o ToString(Len(ks))
     ELSE IF Reported(n) # (Len(a.link) = 1) THEN "page: links of " \o w
     ELSE FoldLeft(LAMBDA m, i : IF m # "" THEN m ELSE PageBad(ks[i], a.kids[i]), "", [i \in 1..Len(ks) |-> i])

(* ------------------------------------------------ places *)
(* Where a document is kept: the path of an entry's directory, relative to *)
(* the directory of the document mentioning it.  Entries are sequences of  *)
(* parts here.                                                             *)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o "/" \o Join(Tail(q))
Stem(d) == Join(d.place) \o DocOf[d.root.cls]

(* the style sheets and scripts of a page: those given, in the order given,
   and beside them only ones copied to the data directory or remote ones; all
   that were copied are there.  media: [sheets, scripts, copied] *)
EndsIn(x, e) == Len(x) > Len(e) /\ SubSeq(x, Len(x) - Len(e) + 1, Len(x)) = e
MediaBad(p, media) ==
  LET Beside(x) == x \in Range_(media.copied) \/ (Len(x) > 4 /\ SubSeq(x, 1, 4) = "http")
      Bad(seen, given, ext) ==
        \/ SelectSeq(seen, LAMBDA x : x \in Range_(given)) # given
        \/ \E i \in 1..Len(seen) : seen[i] \notin Range_(given) /\ ~Beside(seen[i])
        \/ \E x \in Range_(media.copied) : EndsIn(x, ext) /\ x \notin Range_(seen)
  IN IF Bad(p.sheets, media.sheets, ".css") THEN "page: style sheets " \o ToString(p.sheets) \o ", given " \o ToString(media.sheets)
     ELSE IF Bad(p.scripts, media.scripts, ".js") THEN "page: scripts " \o ToString(p.scripts) \o ", given " \o ToString(media.scripts)
     ELSE ""
=============================================================================
