------------------------------ MODULE ClassFile ------------------------------
(***************************************************************************)
(* The Java class file as a byte-level state machine (JVMS chapter 4).     *)
(*                                                                         *)
(* A parser is a function of (data, position) to [ok, p, v]: the position  *)
(* after what was read and the value read.  A file in which any part is    *)
(* short, has an unknown constant tag or a wrong magic number is not a     *)
(* class: Class(d).ok is FALSE.                                            *)
(*                                                                         *)
(* Text is a sequence of code points.  A dereferenced constant is a tagged *)
(* tree: <<"u", text>>, <<"i", neg, magnitude>>, <<"f4"|"f8", bytes>>,     *)
(* <<"t", <<trees>>>>.                                                     *)
(***************************************************************************)
EXTENDS Bytes, Text

Fail == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Res(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
Has(d, p, n) == p + n <= Len(d)
U1(d, p) == Nat1(d, p)
U2(d, p) == Nat2(d, p)

Magic == <<202, 254, 186, 190>>

(* ------------------------------------------------- modified UTF-8 *)
RECURSIVE MergePairs(_)
MergePairs(us) ==
  LET hi == {i \in 1..(Len(us) - 1) : us[i] \in 55296..56319 /\ us[i + 1] \in 56320..57343}
  IN IF hi = {} THEN us
     ELSE LET i == CHOOSE x \in hi : \A y \in hi : x <= y
          IN SubSeq(us, 1, i - 1)
             \o <<65536 + (us[i] - 55296) * 1024 + (us[i + 1] - 56320)>>
             \o MergePairs(SubSeq(us, i + 2, Len(us)))

MUtf8(bs) ==
  IF \A i \in 1..Len(bs) : bs[i] < 128 THEN bs
  ELSE MergePairs(
         FoldLeft(LAMBDA a, b :
                    IF b < 128 THEN [a EXCEPT !.us = Append(@, b)]
                    ELSE IF b < 192                       \* continuation
                    THEN IF a.need = 1
                         THEN [need |-> 0, acc |-> 0, us |-> Append(a.us, a.acc * 64 + (b - 128))]
                         ELSE [a EXCEPT !.need = @ - 1, !.acc = @ * 64 + (b - 128)]
                    ELSE IF b < 224 THEN [a EXCEPT !.need = 1, !.acc = b - 192]
                    ELSE [a EXCEPT !.need = 2, !.acc = b - 224],
                  [need |-> 0, acc |-> 0, us |-> <<>>], bs).us)

(* ------------------------------------------------- the constant pool *)
TUtf8 == 1  TInteger == 3  TFloat == 4  TLong == 5  TDouble == 6
TClass == 7  TString == 8  TField == 9  TMethod == 10  TIMethod == 11
TNameType == 12  TModuleId == 13  THandle == 15  TMType == 16
TDynamic == 17  TIndy == 18  TModule == 19  TPackage == 20

OneRef == {TClass, TString, TMType, TModule, TPackage}
TwoRef == {TField, TMethod, TIMethod, TNameType, TModuleId}
BootRef == {TDynamic, TIndy}
WideTag == {TLong, TDouble}
Tags == {TUtf8, TInteger, TFloat, TLong, TDouble, THandle} \cup OneRef \cup TwoRef \cup BootRef

NoConst == <<0>>        \* index 0 and the slot after a wide constant

CpItem(d, p) ==
  IF ~Has(d, p, 1) THEN Fail
  ELSE LET t == U1(d, p) IN
    CASE t = TUtf8 -> IF ~Has(d, p, 3) THEN Fail
                      ELSE LET n == U2(d, p + 1)
                           IN IF ~Has(d, p, 3 + n) THEN Fail
                              ELSE Res(p + 3 + n, <<t, MUtf8(Slice(d, p + 3, n))>>)
      [] t \in {TInteger, TFloat} ->
           IF ~Has(d, p, 5) THEN Fail ELSE Res(p + 5, <<t, Slice(d, p + 1, 4)>>)
      [] t \in WideTag ->
           IF ~Has(d, p, 9) THEN Fail ELSE Res(p + 9, <<t, Slice(d, p + 1, 8)>>)
      [] t \in OneRef ->
           IF ~Has(d, p, 3) THEN Fail ELSE Res(p + 3, <<t, U2(d, p + 1)>>)
      [] t \in TwoRef \cup BootRef ->
           IF ~Has(d, p, 5) THEN Fail ELSE Res(p + 5, <<t, U2(d, p + 1), U2(d, p + 3)>>)
      [] t = THandle ->
           IF ~Has(d, p, 4) THEN Fail ELSE Res(p + 4, <<t, U1(d, p + 1), U2(d, p + 2)>>)
      [] OTHER -> Fail

\* v is the sequence of entries 1..count-1
Cpool(d, p) ==
  IF ~Has(d, p, 2) THEN Fail
  ELSE LET n == U2(d, p)
           f == FoldLeft(LAMBDA a, k :
                   IF ~a.ok THEN a
                   ELSE IF a.skip THEN [a EXCEPT !.skip = FALSE, !.v = Append(@, NoConst)]
                   ELSE LET it == CpItem(d, a.p)
                        IN IF ~it.ok THEN [a EXCEPT !.ok = FALSE]
                           ELSE [ok |-> TRUE, p |-> it.p, skip |-> it.v[1] \in WideTag,
                                 v |-> Append(a.v, it.v)],
                   [ok |-> TRUE, p |-> p + 2, skip |-> FALSE, v |-> <<>>],
                   [i \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> i])
       IN IF f.ok THEN Res(f.p, f.v) ELSE Fail

Undef == <<"undef">>

RECURSIVE Deref(_, _)
Deref(cp, i) ==
  IF i = 0 \/ i > Len(cp) THEN Undef
  ELSE LET c == cp[i] IN
    CASE c[1] = 0 -> Undef
      [] c[1] = TUtf8 -> <<"u", c[2]>>
      [] c[1] \in {TInteger, TLong} -> SignedInt(c[2])
      [] c[1] = TFloat -> <<"f4", c[2]>>
      [] c[1] = TDouble -> <<"f8", c[2]>>
      [] c[1] \in OneRef -> Deref(cp, c[2])
      [] c[1] \in TwoRef -> <<"t", <<Deref(cp, c[2]), Deref(cp, c[3])>>>>
      [] c[1] \in BootRef -> <<"t", <<WideInt(c[2]), Deref(cp, c[3])>>>>
      [] c[1] = THandle -> <<"t", <<WideInt(c[2]), Deref(cp, c[3])>>>>

\* text of a Utf8, or of a Class/String/... naming one
TextOf(cp, i) == Deref(cp, i)[2]
NoText == <<>>
NameOf(cp, i) == IF i = 0 THEN NoText ELSE TextOf(cp, i)

(* -------------------------------------------- attributes and members *)
Attributes(d, p, cp) ==
  IF ~Has(d, p, 2) THEN Fail
  ELSE LET f == FoldLeft(LAMBDA a, k :
                  IF ~a.ok \/ ~Has(d, a.p, 6) \/ Big4(d, a.p + 2) THEN Fail
                  ELSE LET n == Nat4(d, a.p + 2)
                       IN IF ~Has(d, a.p, 6 + n) \/ Deref(cp, U2(d, a.p))[1] # "u" THEN Fail
                          ELSE Res(a.p + 6 + n,
                                   Append(a.v, [name |-> TextOf(cp, U2(d, a.p)),
                                                data |-> Slice(d, a.p + 6, n)])),
                  Res(p + 2, <<>>), [i \in 1..U2(d, p) |-> i])
       IN f

Member(d, p, cp) ==
  IF ~Has(d, p, 6) THEN Fail
  ELSE LET at == Attributes(d, p + 6, cp)
       IN IF ~at.ok THEN Fail
          ELSE Res(at.p, [access |-> U2(d, p), name |-> U2(d, p + 2),
                          desc |-> U2(d, p + 4), attrs |-> at.v])

Members(d, p, cp) ==
  IF ~Has(d, p, 2) THEN Fail
  ELSE FoldLeft(LAMBDA a, k : IF ~a.ok THEN a
                              ELSE LET m == Member(d, a.p, cp)
                                   IN IF m.ok THEN Res(m.p, Append(a.v, m.v)) ELSE Fail,
                Res(p + 2, <<>>), [i \in 1..U2(d, p) |-> i])

NoClass == [ok |-> FALSE]

Class(d) ==
  IF ~Has(d, 0, 8) \/ SubSeq(d, 1, 4) # Magic THEN NoClass
  ELSE LET cp == Cpool(d, 8) IN
  IF ~cp.ok \/ ~Has(d, cp.p, 8) \/ ~Has(d, cp.p, 8 + 2 * U2(d, cp.p + 6)) THEN NoClass
  ELSE LET q  == cp.p
           ni == U2(d, q + 6)
           fs == Members(d, q + 8 + 2 * ni, cp.v) IN
  IF ~fs.ok THEN NoClass ELSE LET ms == Members(d, fs.p, cp.v) IN
  IF ~ms.ok THEN NoClass ELSE LET at == Attributes(d, ms.p, cp.v) IN
  IF ~at.ok THEN NoClass
  ELSE [ok |-> TRUE, minor |-> U2(d, 4), major |-> U2(d, 6), cp |-> cp.v,
        access |-> U2(d, q), this |-> U2(d, q + 2), super |-> U2(d, q + 4),
        ifaces |-> [i \in 1..ni |-> U2(d, q + 6 + 2 * i)],
        fields |-> fs.v, methods |-> ms.v, attrs |-> at.v, end |-> at.p]

(* ----------------------------------------------- attribute contents *)
HasAttr(attrs, name) == \E i \in 1..Len(attrs) : attrs[i].name = name
\* a later attribute of the same name stands for it
AttrData(attrs, name) ==
  attrs[CHOOSE i \in 1..Len(attrs) : attrs[i].name = name
                 /\ \A j \in (i+1)..Len(attrs) : attrs[j].name # name].data

None == <<"none">>
Some(x) == <<"some", x>>

ACode == Lit("Code")                   AConstVal == Lit("ConstantValue")
AExceptions == Lit("Exceptions")       ASignature == Lit("Signature")
ADeprecated == Lit("Deprecated")       ASynthetic == Lit("Synthetic")
ASourceFile == Lit("SourceFile")       AInner == Lit("InnerClasses")
AEnclosing == Lit("EnclosingMethod")     AModule == Lit("Module")
ADebugExt == Lit("SourceDebugExtension") ADefault == Lit("AnnotationDefault")
ALines == Lit("LineNumberTable")       ALocals == Lit("LocalVariableTable")
ALocalTypes == Lit("LocalVariableTypeTable")
AVisAnno == Lit("RuntimeVisibleAnnotations")
AInvAnno == Lit("RuntimeInvisibleAnnotations")
AVisPar == Lit("RuntimeVisibleParameterAnnotations")
AInvPar == Lit("RuntimeInvisibleParameterAnnotations")

\* the first u2 of an attribute
AttrRef(attrs, name) == U2(AttrData(attrs, name), 0)
OptText(attrs, name, cp) ==
  IF HasAttr(attrs, name) THEN Some(TextOf(cp, AttrRef(attrs, name))) ELSE None

\* the oldest platform that accepts the version, as far as the tool knows
Platform(c) == LET M == c.major m == c.minor IN
  CASE M = 45 -> IF m <= 3 THEN "1.0.2" ELSE "1.1"
    [] M \in 46..52 -> "1." \o ToString(M - 44)
    [] OTHER -> "unknown"

\* the whole of an attribute is text; nothing is shown for an empty one
DebugExt(attrs) ==
  IF ~HasAttr(attrs, ADebugExt) \/ AttrData(attrs, ADebugExt) = <<>> THEN None
  ELSE Some(MUtf8(AttrData(attrs, ADebugExt)))

\* a u2 count and rows of k u2s each, starting at p
Rows(d, p, k) == [i \in 1..U2(d, p) |->
                    [j \in 1..k |-> U2(d, p + 2 + ((i - 1) * k + (j - 1)) * 2)]]

ExceptionNames(attrs, cp) ==
  IF ~HasAttr(attrs, AExceptions) THEN <<>>
  ELSE LET rs == Rows(AttrData(attrs, AExceptions), 0, 1)
       IN [i \in 1..Len(rs) |-> TextOf(cp, rs[i][1])]

(* annotations: element values are recursive *)
ConstKinds == ToSetOf(Lit("BCDFIJSZs")) \cup {99}

RECURSIVE ElemVal(_, _, _), Anno(_, _, _)
ElemVal(d, p, cp) ==
  LET t == U1(d, p) IN
  CASE t \in ConstKinds -> Res(p + 3, <<"const", t, Deref(cp, U2(d, p + 1))>>)
    [] t = 101 -> Res(p + 5, <<"enum", Deref(cp, U2(d, p + 1)), Deref(cp, U2(d, p + 3))>>)
    [] t = 64 -> LET a == Anno(d, p + 1, cp) IN Res(a.p, <<"anno", a.v>>)
    [] t = 91 -> LET f == FoldLeft(LAMBDA a, k : LET e == ElemVal(d, a.p, cp)
                                                IN Res(e.p, Append(a.v, e.v)),
                                  Res(p + 3, <<>>), [i \in 1..U2(d, p + 1) |-> i])
                IN Res(f.p, <<"array", f.v>>)
Anno(d, p, cp) ==
  LET f == FoldLeft(LAMBDA a, k : LET e == ElemVal(d, a.p + 2, cp)
                                  IN Res(e.p, Append(a.v, <<TextOf(cp, U2(d, a.p)), e.v>>)),
                    Res(p + 4, <<>>), [i \in 1..U2(d, p + 2) |-> i])
  IN Res(f.p, <<TextOf(cp, U2(d, p)), f.v>>)

AnnoList(d, p, cp) ==
  FoldLeft(LAMBDA a, k : LET x == Anno(d, a.p, cp) IN Res(x.p, Append(a.v, x.v)),
           Res(p + 2, <<>>), [i \in 1..U2(d, p) |-> i])

Annotations(attrs, name, cp) ==
  IF HasAttr(attrs, name) THEN AnnoList(AttrData(attrs, name), 0, cp).v ELSE <<>>

DefaultOf(attrs, cp) ==
  IF HasAttr(attrs, ADefault) THEN Some(ElemVal(AttrData(attrs, ADefault), 0, cp).v) ELSE None

ParamAnnotations(attrs, name, cp) ==
  IF ~HasAttr(attrs, name) THEN <<>>
  ELSE LET d == AttrData(attrs, name)
       IN FoldLeft(LAMBDA a, k : LET x == AnnoList(d, a.p, cp) IN Res(x.p, Append(a.v, x.v)),
                   Res(1, <<>>), [i \in 1..U1(d, 0) |-> i]).v

(* the Code attribute; its own attributes follow the exception table *)
CodeOf(attrs, cp) ==
  IF ~HasAttr(attrs, ACode) THEN None
  ELSE LET d  == AttrData(attrs, ACode)
           n  == Nat4(d, 4)
           ex == Rows(d, 8 + n, 4)
           at == Attributes(d, 10 + n + 8 * Len(ex), cp)
       IN Some([stack |-> U2(d, 0), locals |-> U2(d, 2), code |-> Slice(d, 8, n),
                handlers |-> [i \in 1..Len(ex) |->
                   <<ex[i][1], ex[i][2], ex[i][3],
                     IF ex[i][4] = 0 THEN None ELSE Some(TextOf(cp, ex[i][4]))>>],
                attrs |-> at.v,
                lines |-> IF HasAttr(at.v, ALines) THEN Rows(AttrData(at.v, ALines), 0, 2) ELSE <<>>,
                vars |-> IF HasAttr(at.v, ALocals) THEN Rows(AttrData(at.v, ALocals), 0, 5) ELSE <<>>,
                vartypes |-> IF HasAttr(at.v, ALocalTypes) THEN Rows(AttrData(at.v, ALocalTypes), 0, 5) ELSE <<>>])

RelLines(lines) == [i \in 1..Len(lines) |-> <<lines[i][1], lines[i][2] - lines[1][2]>>]

\* the line in force at an offset: that of the entry which starts closest
\* before it, in whatever order they are; 0 before the first
LinesAt(lines, off) ==
  LET before == {i \in 1..Len(lines) : lines[i][1] <= off}
  IN IF before = {} THEN {0} ELSE {lines[i][2] : i \in {k \in before : \A j \in before : lines[j][1] <= lines[k][1]}}
LineAt(lines, off) == CHOOSE x \in LinesAt(lines, off) : TRUE

EnclosingOf(attrs, cp) ==
  IF ~HasAttr(attrs, AEnclosing) THEN None
  ELSE LET d == AttrData(attrs, AEnclosing)
           ci == U2(d, 0)
           mi == U2(d, 2)
       IN IF ci = 0 THEN None
          ELSE IF mi = 0 THEN Some(TextOf(cp, ci))
          ELSE LET nt == Deref(cp, mi)[2]
               IN Some(TextOf(cp, ci) \o Lit(".") \o nt[1][2] \o nt[2][2])

InnerOf(attrs, cp) ==
  IF ~HasAttr(attrs, AInner) THEN <<>>
  ELSE LET rs == Rows(AttrData(attrs, AInner), 0, 4)
       IN [i \in 1..Len(rs) |-> <<rs[i][1], rs[i][2], rs[i][3], rs[i][4],
                                  IF rs[i][3] = 0 THEN None ELSE Some(TextOf(cp, rs[i][3]))>>]

(* ------------------------------------------------------------- flags *)
Bit(n, b) == (n \div b) % 2 = 1
FPublic == 1  FPrivate == 2  FProtected == 4  FStatic == 8  FFinal == 16
FSync == 32  FBridge == 64  FVolatile == 64  FVarargs == 128  FTransient == 128
FNative == 256  FInterface == 512  FAbstract == 1024  FStrict == 2048
FSynthetic == 4096  FAnnotation == 8192  FEnum == 16384  FModule == 32768
=============================================================================
