------------------------------ MODULE ClassDiff ------------------------------
(***************************************************************************)
(* The comparison of two decoded classes as a tree of facets.  Every node  *)
(* is [n, c, m, k]: its name, whether it is a change, the options any of   *)
(* which masks it (leaves only) and its children.  Resolve(t, o) replaces  *)
(* the masks by i: whether it is an ignored change when the options o are  *)
(* given.  A leaf is a change exactly when the                             *)
(* values of its facet differ in meaning (constant pool indices followed); *)
(* an inner node is a change when some child is, and is ignored when it    *)
(* is a change and all its changed children are.                           *)
(***************************************************************************)
EXTENDS Descriptor, Disasm, FiniteSets

OptNames == {"version_up", "version_down", "platform_up", "platform_down",
             "absolute_lines", "relative_lines", "deprecated", "added", "pool"}

Leaf(n, differs, masks) == [n |-> n, c |-> differs, m |-> masks, k |-> <<>>]
Super(n, kids) == [n |-> n, c |-> \E j \in 1..Len(kids) : kids[j].c, m |-> {}, k |-> kids]

RECURSIVE Resolve(_, _)
Resolve(t, o) ==
  LET ks == [j \in 1..Len(t.k) |-> Resolve(t.k[j], o)]
  IN [n |-> t.n, c |-> t.c, k |-> ks,
      i |-> t.c /\ (t.m \cap o # {} \/ (ks # <<>> /\ \A j \in 1..Len(ks) : ks[j].c => ks[j].i))]

(* values compared by meaning: every NaN is the same NaN *)
DNaN(v) == \/ v[1] = "f4" /\ v[2][1] % 128 = 127 /\ v[2][2] >= 128
              /\ (v[2][2] % 128 # 0 \/ v[2][3] # 0 \/ v[2][4] # 0)
           \/ v[1] = "f8" /\ v[2][1] % 128 = 127 /\ v[2][2] >= 240
              /\ (v[2][2] % 16 # 0 \/ \E i \in 3..8 : v[2][i] # 0)
NormV(v) == IF ~(v[1] \in {"f4", "f8"} /\ DNaN(v)) THEN v
            ELSE IF v[1] = "f4" THEN <<"f4", <<127, 192, 0, 0>>>>
            ELSE <<"f8", <<127, 248, 0, 0, 0, 0, 0, 0>>>>
ConstAt(cp, i) == <<cp[i][1], NormV(Deref(cp, i))>>

\* annotations: the order of the elements does not matter
RECURSIVE NormElem(_), NormAnno(_)
NormElem(e) == CASE e[1] = "const" -> <<"const", e[2], NormV(e[3])>>
                 [] e[1] = "enum" -> e
                 [] e[1] = "anno" -> <<"anno", NormAnno(e[2])>>
                 [] e[1] = "array" -> <<"array", [j \in 1..Len(e[2]) |-> NormElem(e[2][j])]>>
NormAnno(a) == <<a[1], {<<a[2][j][1], NormElem(a[2][j][2])>> : j \in 1..Len(a[2])}>>
Annos(attrs, name, cp) == LET as == Annotations(attrs, name, cp) IN [j \in 1..Len(as) |-> NormAnno(as[j])]

RawPool(c) == [j \in 1..Len(c.cp) |-> IF c.cp[j][1] = TFloat THEN <<TFloat, NormV(<<"f4", c.cp[j][2]>>)>>
                                      ELSE IF c.cp[j][1] = TDouble THEN <<TDouble, NormV(<<"f8", c.cp[j][2]>>)>>
                                      ELSE c.cp[j]]

Older(l, r) == l.major < r.major \/ (l.major = r.major /\ l.minor < r.minor)

InfoNode(l, r) ==
  LET ver(a, b) == IF Older(l, r) THEN {a} ELSE IF Older(r, l) THEN {b} ELSE {} IN
  Super("ClassInfoChange",
    << Leaf("ClassNameChange", ThisName(l) # ThisName(r), {}),
       Leaf("ClassVersionChange", <<l.major, l.minor>> # <<r.major, r.minor>>, ver("version_up", "version_down")),
       \* the platform follows from the version
       Leaf("ClassPlatformChange", Platform(l) # Platform(r),
            ver("version_up", "version_down") \cup ver("platform_up", "platform_down")),
       Leaf("ClassSuperclassChange", SuperName(l) # SuperName(r), {}),
       Leaf("ClassInterfacesChange", ToSetOf(IfaceNames(l)) # ToSetOf(IfaceNames(r)), {}),
       Leaf("ClassAccessflagsChange", l.access # r.access, {}),
       Leaf("ClassDeprecationChange", IsDeprecated(l.attrs) # IsDeprecated(r.attrs), {"deprecated"}),
       Leaf("ClassSignatureChange", OptText(l.attrs, ASignature, l.cp) # OptText(r.attrs, ASignature, r.cp), {}) >>)

(* --------------------------------------------------------- members *)
Ident(m, c, isM) == Identifier(m, c.cp, isM)
\* pairs (index left, index right): members of the same identifier, those of
\* the same descriptor first, the rest in order of declaration
Pairs(ls, l, rs, r, isM) ==
  LET id(m, c) == Ident(m, c, isM)
      exact == {<<x, y>> \in (1..Len(ls)) \X (1..Len(rs)) :
                   id(ls[x], l) = id(rs[y], r) /\ MDesc(ls[x], l.cp) = MDesc(rs[y], r.cp)}
      left  == {x \in 1..Len(ls) : \A p \in exact : p[1] # x}
      right == {y \in 1..Len(rs) : \A p \in exact : p[2] # y}
      rank(S, ms, c, k) == Cardinality({x \in S : x < k /\ id(ms[x], c) = id(ms[k], c)})
  IN exact \cup {<<x, y>> \in left \X right : id(ls[x], l) = id(rs[y], r)
                    /\ rank(left, ls, l, x) = rank(right, rs, r, y)}

HasConst(m) == HasAttr(m.attrs, AConstVal)
ConstOf(m, c) == IF HasConst(m) THEN Some(ConstAt(c.cp, AttrRef(m.attrs, AConstVal))) ELSE None

\* the pool index held by an operand
ConstIndex(w) == FoldLeft(LAMBDA a, d : a * 256 + d, 0, w[3])

\* the operands of an instruction with its constant followed; the boundary
\* of the code is the same on both sides when this is used
Meant(c, ins) == IF ins[2] \in ConstOps
                 THEN <<<<"const", ConstAt(c.cp, ConstIndex(ins[3][1]))>>, Tail(ins[3])>>
                 ELSE <<<<"none">>, ins[3]>>

CodeNode(lm, l, rm, r) ==
  LET lc == CodeOf(lm.attrs, l.cp)
      rc == CodeOf(rm.attrs, r.cp)
      none == [stack |-> 0, locals |-> 0, code |-> <<>>, handlers |-> <<>>, lines |-> <<>>]
      x == IF lc[1] = "none" THEN none ELSE lc[2]
      y == IF rc[1] = "none" THEN none ELSE rc[2]
      L == Disassembly(x.code)
      R == Disassembly(y.code)
      oneSided == lc[1] # rc[1]
      body == oneSided \/ Len(x.code) # Len(y.code)
              \/ [j \in 1..Len(L) |-> <<L[j][1], L[j][2]>>] # [j \in 1..Len(R) |-> <<R[j][1], R[j][2]>>]
      consts == body \/ \E j \in 1..Len(L) : Meant(l, L[j]) # Meant(r, R[j])
  IN IF lc[1] = "none" /\ rc[1] = "none" THEN Super("MethodCodeChange", <<>>)
     ELSE Super("MethodCodeChange",
       << Leaf("CodeAbsoluteLinesChange", x.lines # y.lines, {"absolute_lines"}),
          Leaf("CodeRelativeLinesChange", RelLines(x.lines) # RelLines(y.lines), {"relative_lines"}),
          Leaf("CodeStackChange", x.stack # y.stack, {}),
          Leaf("CodeLocalsChange", x.locals # y.locals, {}),
          Leaf("CodeExceptionChange", x.handlers # y.handlers, {}),
          Leaf("CodeConstantsChange", consts, {}),
          Leaf("CodeBodyChange", body, {}) >>)

FieldNode(n, f, l, g, r) ==
  Super(n, << Leaf("FieldNameChange", MName(f, l.cp) # MName(g, r.cp), {}),
     Leaf("FieldTypeChange", MDesc(f, l.cp) # MDesc(g, r.cp), {}),
     Leaf("FieldSignatureChange", OptText(f.attrs, ASignature, l.cp) # OptText(g.attrs, ASignature, r.cp), {}),
     Leaf("FieldAnnotationsChange", Annos(f.attrs, AVisAnno, l.cp) # Annos(g.attrs, AVisAnno, r.cp), {}),
     Leaf("FieldInvisibleAnnotationsChange", Annos(f.attrs, AInvAnno, l.cp) # Annos(g.attrs, AInvAnno, r.cp), {}),
     Leaf("FieldAccessflagsChange", f.access # g.access, {}),
     Leaf("FieldConstvalueChange", ConstOf(f, l) # ConstOf(g, r), {}),
     Leaf("FieldDeprecationChange", IsDeprecated(f.attrs) # IsDeprecated(g.attrs), {"deprecated"}) >>)

MethodNode(n, f, l, g, r) ==
  Super(n, << Leaf("MethodNameChange", MName(f, l.cp) # MName(g, r.cp), {}),
     Leaf("MethodTypeChange", RetOf(f, l.cp, TRUE).raw # RetOf(g, r.cp, TRUE).raw, {}),
     Leaf("MethodSignatureChange", OptText(f.attrs, ASignature, l.cp) # OptText(g.attrs, ASignature, r.cp), {}),
     Leaf("MethodAnnotationsChange", Annos(f.attrs, AVisAnno, l.cp) # Annos(g.attrs, AVisAnno, r.cp), {}),
     Leaf("MethodInvisibleAnnotationsChange", Annos(f.attrs, AInvAnno, l.cp) # Annos(g.attrs, AInvAnno, r.cp), {}),
     Leaf("MethodParametersChange", ArgRaws(f, l.cp, TRUE) # ArgRaws(g, r.cp, TRUE), {}),
     Leaf("MethodAccessflagsChange", f.access # g.access, {}),
     Leaf("MethodExceptionsChange", ExceptionNames(f.attrs, l.cp) # ExceptionNames(g.attrs, r.cp), {}),
     Leaf("MethodAbstractChange", HasAttr(f.attrs, ACode) # HasAttr(g.attrs, ACode), {}),
     Leaf("MethodDeprecationChange", IsDeprecated(f.attrs) # IsDeprecated(g.attrs), {"deprecated"}),
     CodeNode(f, l, g, r) >>)

SortedSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

MembersNode(n, word, ls, l, rs, r, isM) ==
  LET ps == Pairs(ls, l, rs, r, isM)
      add == SortedSet({y \in 1..Len(rs) : \A p \in ps : p[2] # y})
      rem == SortedSet({x \in 1..Len(ls) : \A p \in ps : p[1] # x})
      both == SortedSet({p[2] : p \in ps})
      mate(y) == (CHOOSE p \in ps : p[2] = y)[1]
  IN Super(n,
       [j \in 1..Len(add) |-> Leaf(word \o "Added:" \o ToString(add[j]), TRUE, {"added"})]
       \o [j \in 1..Len(rem) |-> Leaf(word \o "Removed:" \o ToString(rem[j]), TRUE, {})]
       \o [j \in 1..Len(both) |->
             LET x == mate(both[j])
                 nm == word \o "Change:" \o ToString(x) \o ":" \o ToString(both[j])
             IN IF isM THEN MethodNode(nm, ls[x], l, rs[both[j]], r)
                ELSE FieldNode(nm, ls[x], l, rs[both[j]], r)])

Facets(l, r) ==
  Super("JavaClassChange",
    << InfoNode(l, r),
       Leaf("ClassAnnotationsChange", Annos(l.attrs, AVisAnno, l.cp) # Annos(r.attrs, AVisAnno, r.cp), {}),
       Leaf("ClassInvisibleAnnotationsChange", Annos(l.attrs, AInvAnno, l.cp) # Annos(r.attrs, AInvAnno, r.cp), {}),
       Leaf("ClassConstantPoolChange", RawPool(l) # RawPool(r), {"pool"}),
       MembersNode("ClassFieldsChange", "Field", l.fields, l, r.fields, r, FALSE),
       MembersNode("ClassMethodsChange", "Method", l.methods, l, r.methods, r, TRUE) >>)

DiffTree(l, r, o) == Resolve(Facets(l, r), o)

RECURSIVE NodeRows(_, _)
NodeRows(t, pre) == {<<Append(pre, t.n), t.c, t.i>>}
                    \cup UNION {NodeRows(t.k[j], Append(pre, t.n)) : j \in 1..Len(t.k)}
Rows_(t) == NodeRows(t, <<>>)
\* the paths of the changed leaves
RECURSIVE NodeChanged(_, _)
NodeChanged(t, pre) == IF ~t.c THEN {}
                       ELSE IF t.k = <<>> THEN {Append(pre, t.n)}
                       ELSE UNION {NodeChanged(t.k[j], Append(pre, t.n)) : j \in 1..Len(t.k)}
ChangedPaths(t) == NodeChanged(t, <<>>)

\* what the command's options set
Expand(words) ==
  LET f(w) == CASE w = "lines" -> {"absolute_lines", "relative_lines"}
                [] w = "version" -> {"version_up", "version_down"}
                [] w = "platform" -> {"platform_up", "platform_down"}
                [] OTHER -> {w}
  IN UNION {f(words[j]) : j \in 1..Len(words)}

ExitStatus(t) == IF t.c /\ ~t.i THEN 1 ELSE 0
=============================================================================
