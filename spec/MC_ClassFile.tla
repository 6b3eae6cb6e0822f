---------------------------- MODULE MC_ClassFile ----------------------------
(***************************************************************************)
(* A class under construction: a writer adds constants, interfaces,        *)
(* members and attributes one at a time; at every moment the bytes it      *)
(* would write decode to exactly what was put in, whatever was added in    *)
(* front, and no proper prefix of them is a class.                         *)
(***************************************************************************)
EXTENDS ClassEnc, FiniteSets, Json, IOUtils
CONSTANTS MaxAdds, PrefixAdds, ScenAdds

Entries == {
  Utf(<<>>), Utf(Lit("x")), Utf(<<192, 128>>), Utf(<<195, 169, 65>>), Utf(<<228, 184, 173>>),
  Utf(<<237, 160, 189, 237, 184, 128>>),
  <<"int", <<128, 0, 0, 0>>>>, <<"int", <<0, 0, 1, 200>>>>, <<"float", <<191, 128, 0, 0>>>>,
  <<"long", <<255, 255, 255, 255, 255, 255, 255, 254>>>>, <<"double", <<63, 240, 0, 0, 0, 0, 0, 0>>>>,
  Cls(Lit("[I")), <<"string", Lit("x")>>, <<"field", Lit("C"), Lit("f"), Lit("I")>>,
  <<"method", Lit("a/B"), Lit("m"), Lit("()V")>>, <<"imethod", Lit("D"), Lit("m"), Lit("(J)La/B;")>>,
  <<"nt", Lit("f"), Lit("I")>>, <<"mtype", Lit("()V")>>,
  <<"handle", 1, <<"field", Lit("C"), Lit("f"), Lit("I")>>>>,
  <<"indy", 2, Lit("m"), Lit("()V")>>, <<"dynamic", 0, Lit("f"), Lit("I")>>,
  <<"module", Lit("x")>>, <<"package", Lit("a")>> }

FieldAttrs == { <<"const", <<"int", <<0, 0, 0, 7>>>>>>, <<"const", <<"long", <<0, 0, 0, 0, 0, 0, 0, 7>>>>>>,
                <<"flag", ADeprecated>>, <<"sig", Lit("TT;")>>, <<"raw", Lit("X"), <<1, 2, 3>>>> }
CodeAttr1 == <<"code", 2, 1, <<177>>, <<>>, <<>>>>
CodeAttr2 == <<"code", 1, 3, <<16, 5, 87, 177>>, <<<<0, 3, 3, <<>>>>, <<0, 3, 3, Lit("E")>>>>,
               << <<"raw", Lit("Y"), <<9>>>>, <<"lines", <<<<0, 10>>, <<3, 12>>>>>>,
                  <<"vars", <<<<0, 4, Lit("v"), Lit("I"), 1>>>>>> >> >>
MethodAttrs == { CodeAttr1, CodeAttr2, <<"exceptions", <<Lit("E"), Lit("F")>>>>, <<"flag", ASynthetic>>,
                 <<"raw", Lit("X"), <<>>>> }
ClassAttrs == { <<"source", Lit("B.java")>>, <<"flag", ADeprecated>>, <<"raw", Lit("X"), <<0, 0>>>>,
                <<"inner", <<<<Lit("a/B$C"), Lit("a/B"), Lit("C"), 9>>, <<Lit("a/B$1"), <<>>, <<>>, 0>>>>>> }

Fresh(as, a) == \A i \in 1..Len(as) : AName(as[i]) # AName(a)

Adds(c) ==
  {[c EXCEPT !.extra = Append(@, e)] : e \in {x \in Entries : ~InSeq(x, c.extra)}}
  \cup {[c EXCEPT !.ifaces = Append(@, Lit("I1"))], [c EXCEPT !.super = <<>>]}
  \cup {[c EXCEPT !.fields = Append(@, [access |-> 2, name |-> Lit("f"), desc |-> Lit("I"), attrs |-> <<>>])],
        [c EXCEPT !.methods = Append(@, [access |-> 1, name |-> Lit("m"), desc |-> Lit("(J)La/B;"), attrs |-> <<>>])]}
  \cup (IF c.fields = <<>> THEN {}
        ELSE {[c EXCEPT !.fields[Len(c.fields)].attrs = Append(@, a)] :
                a \in {x \in FieldAttrs : Fresh(c.fields[Len(c.fields)].attrs, x)}})
  \cup (IF c.methods = <<>> THEN {}
        ELSE {[c EXCEPT !.methods[Len(c.methods)].attrs = Append(@, a)] :
                a \in {x \in MethodAttrs : Fresh(c.methods[Len(c.methods)].attrs, x)}})
  \cup {[c EXCEPT !.attrs = Append(@, a)] : a \in {x \in ClassAttrs : Fresh(c.attrs, x)}}

VARIABLES c, n
Init == c = Blank /\ n = 0
Next == n < MaxAdds /\ n' = n + 1 /\ c' \in Adds(c)

(* what each entry means, independently of where it was put *)
RECURSIVE Meaning(_)
Meaning(e) ==
  LET u(b) == <<"u", MUtf8(b)>> IN
  CASE e[1] = "utf8" -> u(e[2])
    [] e[1] \in {"class", "string", "mtype", "module", "package"} -> u(e[2])
    [] e[1] \in {"int", "long"} -> SignedInt(e[2])
    [] e[1] = "float" -> <<"f4", e[2]>>
    [] e[1] = "double" -> <<"f8", e[2]>>
    [] e[1] = "nt" -> <<"t", <<u(e[2]), u(e[3])>>>>
    [] e[1] \in {"field", "method", "imethod"} -> <<"t", <<u(e[2]), <<"t", <<u(e[3]), u(e[4])>>>>>>>>
    [] e[1] = "handle" -> <<"t", <<WideInt(e[2]), Meaning(e[3])>>>>
    [] e[1] \in {"indy", "dynamic"} -> <<"t", <<WideInt(e[2]), <<"t", <<u(e[3]), u(e[4])>>>>>>>>

D == Encode(c)
P == PoolOf(c)
X == Class(D)

Decodes == X.ok /\ X.end = Len(D)

PoolRight ==
  /\ Len(X.cp) = Widths(P)
  /\ \A k \in 1..Len(P) :
       LET i == IdxAt(P, k)
       IN /\ X.cp[i][1] = TagByte[P[k][1]]
          /\ Deref(X.cp, i) = Meaning(P[k])
          /\ (Width(P[k]) = 2 => X.cp[i + 1] = NoConst /\ Deref(X.cp, i + 1) = Undef)

MembersRight(got, put) ==
  /\ Len(got) = Len(put)
  /\ \A i \in 1..Len(put) :
       /\ got[i].access = put[i].access
       /\ TextOf(X.cp, got[i].name) = put[i].name
       /\ TextOf(X.cp, got[i].desc) = put[i].desc
       /\ [j \in 1..Len(got[i].attrs) |-> got[i].attrs[j].name] = [j \in 1..Len(put[i].attrs) |-> AName(put[i].attrs[j])]
       /\ \A j \in 1..Len(put[i].attrs) :
            LET a == put[i].attrs[j]
            IN CASE a[1] = "const" -> Deref(X.cp, AttrRef(got[i].attrs, AConstVal)) = Meaning(a[2])
                 [] a[1] = "exceptions" -> ExceptionNames(got[i].attrs, X.cp) = a[2]
                 [] a[1] = "sig" -> OptText(got[i].attrs, ASignature, X.cp) = Some(a[2])
                 [] a[1] = "raw" -> got[i].attrs[j].data = a[3]
                 [] a[1] = "code" ->
                      LET k == CodeOf(got[i].attrs, X.cp)[2]
                      IN /\ k.stack = a[2] /\ k.locals = a[3] /\ k.code = a[4]
                         /\ Len(k.handlers) = Len(a[5])
                         /\ \A h \in 1..Len(a[5]) :
                              k.handlers[h] = <<a[5][h][1], a[5][h][2], a[5][h][3],
                                                IF a[5][h][4] = <<>> THEN None ELSE Some(a[5][h][4])>>
                         /\ Len(k.attrs) = Len(a[6])
                 [] OTHER -> TRUE

StructureRight ==
  /\ TextOf(X.cp, X.this) = c.this
  /\ NameOf(X.cp, X.super) = c.super
  /\ [i \in 1..Len(X.ifaces) |-> TextOf(X.cp, X.ifaces[i])] = c.ifaces
  /\ X.access = c.access /\ X.major = c.major /\ X.minor = c.minor
  /\ MembersRight(X.fields, c.fields) /\ MembersRight(X.methods, c.methods)
  /\ [j \in 1..Len(X.attrs) |-> X.attrs[j].name] = [j \in 1..Len(c.attrs) |-> AName(c.attrs[j])]

NoPrefixIsAClass == n <= PrefixAdds => \A k \in 0..(Len(D) - 1) : ~Class(SubSeq(D, 1, k)).ok
\* nothing after the end is looked at
TailIgnored == Class(D \o <<1, 2>>) = X

RECURSIVE Reach(_)
Reach(k) == IF k = 0 THEN {Blank} ELSE LET R == Reach(k - 1) IN R \cup UNION {Adds(x) : x \in R}
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[data |-> Encode(x)] : x \in Reach(ScenAdds)}))
=============================================================================
