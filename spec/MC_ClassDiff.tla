---------------------------- MODULE MC_ClassDiff ----------------------------
(***************************************************************************)
(* Two copies of a class are edited: every edit is described by the facets *)
(* it is meant to change, and the writer may lay out its constant pool in  *)
(* any of several ways.  The specified comparison must report exactly the  *)
(* facets of the edits made, whichever way round the two are compared, and *)
(* the ignore options must mask exactly theirs.                            *)
(***************************************************************************)
EXTENDS ClassEnc, ClassDiff, Json, IOUtils
CONSTANTS MaxEdits, ScenEdits

S(x) == Lit(x)
An(n, v) == <<"anno", n, <<S("La/A;"), S("k"), 73, <<"int", <<0, 0, 0, v>>>>>>>>
Fld(a, n, d, as) == [access |-> a, name |-> S(n), desc |-> S(d), attrs |-> as]

Str == <<"field", S("java/lang/System"), S("out"), S("Lp/S;")>>
Code1 == <<"codep", 2, 3, <<<<"b", <<16, 5, 178>>>>, <<"r", Str>>, <<"b", <<132, 1, 255, 177>>>>>>,
           <<<<0, 2, 5, S("p/E")>>>>, <<<<"lines", <<<<0, 10>>, <<2, 12>>>>>>>>>>
Code2 == <<"code", 1, 1, <<3, 172>>, <<>>, <<>>>>

Base == [Blank EXCEPT
  !.major = 50,
  !.ifaces = <<S("p/I"), S("p/J")>>,
  !.fields = <<Fld(8, "x", "I", <<<<"const", <<"int", <<0, 0, 0, 7>>>>>>>>),
               Fld(8, "f", "F", <<<<"const", <<"float", <<0, 0, 0, 0>>>>>>>>),
               Fld(2, "z", "La/B;", <<An(AVisAnno, 1)>>)>>,
  !.methods = <<Fld(1, "m", "(I)V", <<Code1, <<"exceptions", <<S("p/E"), S("p/F")>>>>>>),
                Fld(1025, "n", "()I", <<>>),
                Fld(4161, "g", "()La/B;", <<Code2>>),
                Fld(1, "m", "(J)V", <<Code2>>)>>,
  !.attrs = <<An(AVisAnno, 3), <<"sig", S("La/B<TT;>;")>>>>]

Info(n) == <<"JavaClassChange", "ClassInfoChange", n>>
FP(x, n) == <<"JavaClassChange", "ClassFieldsChange", x, n>>
FT(x) == <<"JavaClassChange", "ClassFieldsChange", x>>
MP(x, n) == <<"JavaClassChange", "ClassMethodsChange", x, n>>
MT(x) == <<"JavaClassChange", "ClassMethodsChange", x>>
CP(x, n) == <<"JavaClassChange", "ClassMethodsChange", x, "MethodCodeChange", n>>
PoolPath == <<"JavaClassChange", "ClassConstantPoolChange">>

Sub(c, i, as) == [c EXCEPT !.methods[i].attrs = as]
WithCode(c, k) == Sub(c, 1, <<k, c.methods[1].attrs[2]>>)
CurCode(c) == c.methods[1].attrs[1]

\* name |-> <<slot, paths expected, options that cover it or {}>>; edits of
\* the same slot exclude each other
Edits ==
  ("name" :> <<"this", {Info("ClassNameChange")}, {}>>)
  @@ ("super" :> <<"super", {Info("ClassSuperclassChange")}, {}>>)
  @@ ("nosuper" :> <<"super", {Info("ClassSuperclassChange")}, {}>>)
  @@ ("iface" :> <<"ifaces", {Info("ClassInterfacesChange")}, {}>>)
  @@ ("ifaceorder" :> <<"ifaces", {}, {}>>)
  @@ ("access" :> <<"access", {Info("ClassAccessflagsChange")}, {}>>)
  @@ ("vup" :> <<"version", {Info("ClassVersionChange"), Info("ClassPlatformChange")}, {"version_up"}>>)
  @@ ("vdown" :> <<"version", {Info("ClassVersionChange"), Info("ClassPlatformChange")}, {"version_down"}>>)
  @@ ("minor" :> <<"version", {Info("ClassVersionChange")}, {"version_up"}>>)
  @@ ("dep" :> <<"cdep", {Info("ClassDeprecationChange")}, {"deprecated"}>>)
  @@ ("sig" :> <<"csig", {Info("ClassSignatureChange")}, {}>>)
  @@ ("anno" :> <<"canno", {<<"JavaClassChange", "ClassAnnotationsChange">>}, {}>>)
  @@ ("ianno" :> <<"cianno", {<<"JavaClassChange", "ClassInvisibleAnnotationsChange">>}, {}>>)
  @@ ("fadd" :> <<"fields", {FT("FieldAdded:4")}, {"added"}>>)
  @@ ("fdel" :> <<"fields", {FT("FieldRemoved:1")}, {}>>)
  @@ ("fname" :> <<"fields", {FT("FieldAdded:3"), FT("FieldRemoved:3")}, {}>>)
  @@ ("forder" :> <<"fields", {}, {}>>)
  @@ ("ftype" :> <<"f3", {FP("FieldChange:3:3", "FieldTypeChange")}, {}>>)
  @@ ("facc" :> <<"f1", {FP("FieldChange:1:1", "FieldAccessflagsChange")}, {}>>)
  @@ ("fconst" :> <<"f1", {FP("FieldChange:1:1", "FieldConstvalueChange")}, {}>>)
  @@ ("fconstgone" :> <<"f1", {FP("FieldChange:1:1", "FieldConstvalueChange")}, {}>>)
  @@ ("fconsttype" :> <<"f1", {FP("FieldChange:1:1", "FieldConstvalueChange")}, {}>>)
  @@ ("fconstzero" :> <<"f2", {FP("FieldChange:2:2", "FieldConstvalueChange")}, {}>>)
  @@ ("fdep" :> <<"f1", {FP("FieldChange:1:1", "FieldDeprecationChange")}, {"deprecated"}>>)
  @@ ("fsig" :> <<"f1", {FP("FieldChange:1:1", "FieldSignatureChange")}, {}>>)
  @@ ("fanno" :> <<"f3", {FP("FieldChange:3:3", "FieldAnnotationsChange")}, {}>>)
  @@ ("fianno" :> <<"f3", {FP("FieldChange:3:3", "FieldInvisibleAnnotationsChange")}, {}>>)
  @@ ("madd" :> <<"methods", {MT("MethodAdded:5")}, {"added"}>>)
  @@ ("mdel" :> <<"methods", {MT("MethodRemoved:2")}, {}>>)
  @@ ("margs" :> <<"methods", {MT("MethodAdded:4"), MT("MethodRemoved:4")}, {}>>)
  @@ ("morder" :> <<"methods", {}, {}>>)
  @@ ("mbridge" :> <<"m3", {MP("MethodChange:3:3", "MethodAccessflagsChange")}, {}>>)
  @@ ("mret" :> <<"m2", {MP("MethodChange:2:2", "MethodTypeChange")}, {}>>)
  @@ ("macc" :> <<"m2", {MP("MethodChange:2:2", "MethodAccessflagsChange")}, {}>>)
  @@ ("mexc" :> <<"m1", {MP("MethodChange:1:1", "MethodExceptionsChange")}, {}>>)
  @@ ("mdep" :> <<"m2", {MP("MethodChange:2:2", "MethodDeprecationChange")}, {"deprecated"}>>)
  @@ ("mconcrete" :> <<"m2", {MP("MethodChange:2:2", "MethodAbstractChange")}
                       \cup {CP("MethodChange:2:2", n) : n \in {"CodeStackChange", "CodeLocalsChange",
                             "CodeConstantsChange", "CodeBodyChange"}}, {}>>)
  @@ ("mabstract" :> <<"m1", {MP("MethodChange:1:1", "MethodAbstractChange")}
                       \cup {CP("MethodChange:1:1", n) : n \in {"CodeStackChange", "CodeLocalsChange", "CodeExceptionChange",
                             "CodeAbsoluteLinesChange", "CodeRelativeLinesChange",
                             "CodeConstantsChange", "CodeBodyChange"}}, {}>>)
  @@ ("stack" :> <<"m1", {CP("MethodChange:1:1", "CodeStackChange")}, {}>>)
  @@ ("locals" :> <<"m1", {CP("MethodChange:1:1", "CodeLocalsChange")}, {}>>)
  @@ ("handler" :> <<"m1", {CP("MethodChange:1:1", "CodeExceptionChange")}, {}>>)
  @@ ("catch" :> <<"m1", {CP("MethodChange:1:1", "CodeExceptionChange")}, {}>>)
  @@ ("lineshift" :> <<"m1", {CP("MethodChange:1:1", "CodeAbsoluteLinesChange")}, {"absolute_lines"}>>)
  @@ ("lines" :> <<"m1", {CP("MethodChange:1:1", "CodeAbsoluteLinesChange"),
                          CP("MethodChange:1:1", "CodeRelativeLinesChange")}, {"absolute_lines", "relative_lines"}>>)
  @@ ("opcode" :> <<"m1", {CP("MethodChange:1:1", "CodeBodyChange"), CP("MethodChange:1:1", "CodeConstantsChange")}, {}>>)
  @@ ("operand" :> <<"m1", {CP("MethodChange:1:1", "CodeConstantsChange")}, {}>>)
  @@ ("constant" :> <<"m1", {CP("MethodChange:1:1", "CodeConstantsChange")}, {}>>)
  @@ ("length" :> <<"m1", {CP("MethodChange:1:1", "CodeBodyChange"), CP("MethodChange:1:1", "CodeConstantsChange")}, {}>>)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Apply(c, e) ==
  CASE e = "name" -> [c EXCEPT !.this = S("a/C")]
    [] e = "super" -> [c EXCEPT !.super = S("p/S")]
    [] e = "nosuper" -> [c EXCEPT !.super = <<>>]
    [] e = "iface" -> [c EXCEPT !.ifaces = Append(@, S("p/K"))]
    [] e = "ifaceorder" -> [c EXCEPT !.ifaces = Rev(@)]
    [] e = "access" -> [c EXCEPT !.access = 49]
    [] e = "vup" -> [c EXCEPT !.major = 51]
    [] e = "vdown" -> [c EXCEPT !.major = 49]
    [] e = "minor" -> [c EXCEPT !.minor = 3]
    [] e = "dep" -> [c EXCEPT !.attrs = Append(@, <<"flag", ADeprecated>>)]
    [] e = "sig" -> [c EXCEPT !.attrs[2] = <<"sig", S("La/B<TU;>;")>>]
    [] e = "anno" -> [c EXCEPT !.attrs[1] = An(AVisAnno, 4)]
    [] e = "ianno" -> [c EXCEPT !.attrs = Append(@, An(AInvAnno, 3))]
    [] e = "fadd" -> [c EXCEPT !.fields = Append(@, Fld(1, "q", "J", <<>>))]
    [] e = "fdel" -> [c EXCEPT !.fields = Tail(@)]
    [] e = "fname" -> [c EXCEPT !.fields[3].name = S("zz")]
    [] e = "forder" -> [c EXCEPT !.fields = Rev(@)]
    [] e = "ftype" -> [c EXCEPT !.fields[3].desc = S("[La/B;")]
    [] e = "facc" -> [c EXCEPT !.fields[1].access = 9]
    [] e = "fconst" -> [c EXCEPT !.fields[1].attrs = <<<<"const", <<"int", <<0, 0, 0, 8>>>>>>>>]
    [] e = "fconstgone" -> [c EXCEPT !.fields[1].attrs = <<>>]
    [] e = "fconsttype" -> [c EXCEPT !.fields[1].attrs = <<<<"const", <<"long", <<0, 0, 0, 0, 0, 0, 0, 7>>>>>>>>]
    [] e = "fconstzero" -> [c EXCEPT !.fields[2].attrs = <<<<"const", <<"float", <<128, 0, 0, 0>>>>>>>>]
    [] e = "fdep" -> [c EXCEPT !.fields[1].attrs = Append(@, <<"flag", ADeprecated>>)]
    [] e = "fsig" -> [c EXCEPT !.fields[1].attrs = Append(@, <<"sig", S("TT;")>>)]
    [] e = "fanno" -> [c EXCEPT !.fields[3].attrs = <<An(AVisAnno, 2)>>]
    [] e = "fianno" -> [c EXCEPT !.fields[3].attrs = Append(@, An(AInvAnno, 1))]
    [] e = "madd" -> [c EXCEPT !.methods = Append(@, Fld(1, "h", "()V", <<Code2>>))]
    [] e = "mdel" -> [c EXCEPT !.methods = <<c.methods[1], c.methods[3], c.methods[4]>>]
    [] e = "margs" -> [c EXCEPT !.methods[4].desc = S("(JJ)V")]
    [] e = "morder" -> [c EXCEPT !.methods = Rev(@)]
    [] e = "mbridge" -> [c EXCEPT !.methods[3].access = 4169]
    [] e = "mret" -> [c EXCEPT !.methods[2].desc = S("()J")]
    [] e = "macc" -> [c EXCEPT !.methods[2].access = 1028]
    [] e = "mexc" -> Sub(c, 1, <<CurCode(c), <<"exceptions", <<S("p/F"), S("p/E")>>>>>>)
    [] e = "mdep" -> Sub(c, 2, <<<<"flag", ADeprecated>>>>)
    [] e = "mconcrete" -> Sub(c, 2, <<Code2>>)
    [] e = "mabstract" -> Sub(c, 1, <<c.methods[1].attrs[2]>>)
    [] e = "stack" -> WithCode(c, [CurCode(c) EXCEPT ![2] = 3])
    [] e = "locals" -> WithCode(c, [CurCode(c) EXCEPT ![3] = 2])
    [] e = "handler" -> WithCode(c, [CurCode(c) EXCEPT ![5] = <<<<0, 5, 5, S("p/E")>>>>])
    [] e = "catch" -> WithCode(c, [CurCode(c) EXCEPT ![5] = <<<<0, 2, 5, S("p/F")>>>>])
    [] e = "lineshift" -> WithCode(c, [CurCode(c) EXCEPT ![6] = <<<<"lines", <<<<0, 20>>, <<2, 22>>>>>>>>])
    [] e = "lines" -> WithCode(c, [CurCode(c) EXCEPT ![6] = <<<<"lines", <<<<0, 10>>, <<2, 11>>>>>>>>])
    [] e = "opcode" -> WithCode(c, [CurCode(c) EXCEPT ![4][3] = <<"b", <<132, 1, 255, 176>>>>])
    [] e = "operand" -> WithCode(c, [CurCode(c) EXCEPT ![4][3] = <<"b", <<132, 2, 255, 177>>>>])
    [] e = "constant" -> WithCode(c, [CurCode(c) EXCEPT ![4][2] = <<"r", [Str EXCEPT ![3] = S("err")]>>])
    [] e = "length" -> WithCode(c, [CurCode(c) EXCEPT ![4][3] = <<"b", <<132, 1, 255, 0, 177>>>>])

\* edits of single members are made before those of the member lists
ListEdits == {"fadd", "fdel", "fname", "forder", "madd", "mdel", "margs", "morder"}
Slot(e) == Edits[e][1]
IsMemberSlot(s) == s \in {"f1", "f2", "f3", "m1", "m2", "m3"}
Compatible(E, e) == /\ \A x \in E : Slot(x) # Slot(e)
                    \* list edits move the members that expectations name
                    /\ (e \in ListEdits => \A x \in E : ~IsMemberSlot(Slot(x)))
                    /\ (IsMemberSlot(Slot(e)) => E \cap ListEdits = {})

ApplyAll(E) == FoldLeft(Apply, Base, SetToSeq(E))

\* ways a writer may lay out the same class
Layouts == {"plain", "padded", "reversed", "doubled"}
Laid(c, lay) ==
  CASE lay = "plain" -> Encode(c)
    [] lay = "padded" -> Encode([c EXCEPT !.extra = <<<<"long", <<0, 0, 0, 0, 0, 0, 0, 9>>>>, Utf(S("pad"))>>])
    [] lay = "reversed" -> EncodeWith(Rev(PoolOf(c)), c)
    [] lay = "doubled" -> EncodeWith(PoolOf(c) \o PoolOf(c), c)

Covers(e, o) == Edits[e][2] = {} \/ (Edits[e][3] # {} /\ Edits[e][3] \subseteq o)
OptSets == {{}, OptNames} \cup {{x} : x \in OptNames} \cup {OptNames \ {x} : x \in OptNames}

VARIABLES edits, lay
Init == edits = {} /\ lay \in Layouts
Next == /\ Cardinality(edits) < MaxEdits
        /\ \E e \in DOMAIN Edits : e \notin edits /\ Compatible(edits, e) /\ edits' = edits \cup {e}
        /\ UNCHANGED lay

L == Class(Encode(Base))
R == Class(Laid(ApplyAll(edits), lay))
Expected == UNION {Edits[e][2] : e \in edits}

FacetsExact ==
  LET l == L r == R t == Facets(l, r)
      D(o) == Resolve(t, o)
      quiet == D({})
      \* the writer's choice of layout shows in the constant pool only
      layoutOnly == edits = {} => /\ ExitStatus(D({"pool"})) = 0
                                  /\ ExitStatus(quiet) = (IF lay = "plain" THEN 0 ELSE 1)
      maskExact == \A o \in OptSets :
        LET u == D(o \cup {"pool"}) IN u.i <=> (u.c /\ \A e \in edits : Covers(e, o))
      monotone == \A o \in OptSets : D(o).i => \A x \in OptNames : D(o \cup {x}).i
  IN /\ l.ok /\ r.ok
     /\ ChangedPaths(quiet) \ {PoolPath} = Expected
     /\ ChangedPaths(D(OptNames)) = ChangedPaths(quiet)
     /\ quiet.c = (ChangedPaths(quiet) # {})
     /\ layoutOnly /\ maskExact /\ monotone

\* comparing the other way round
Flip(ps) == {<<p[2], p[1]>> : p \in ps}
SwapSymmetric ==
  LET l == L r == R IN
  /\ Pairs(r.fields, r, l.fields, l, FALSE) = Flip(Pairs(l.fields, l, r.fields, r, FALSE))
  /\ Pairs(r.methods, r, l.methods, l, TRUE) = Flip(Pairs(l.methods, l, r.methods, r, TRUE))
  /\ Cardinality(ChangedPaths(Facets(r, l))) = Cardinality(ChangedPaths(Facets(l, r)))

RECURSIVE EditSets(_)
EditSets(k) == IF k = 0 THEN {{}} ELSE LET P == EditSets(k - 1)
  IN P \cup {E \cup {e} : <<E, e>> \in {q \in P \X DOMAIN Edits : q[2] \notin q[1] /\ Compatible(q[1], q[2])}}
BaseBytes == Encode(Base)
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[l |-> BaseBytes, r |-> Laid(ApplyAll(x[1]), x[2]), lay |-> x[2],
                                                 edits |-> SetToSeq(x[1])] : x \in EditSets(ScenEdits) \X Layouts}))
=============================================================================
