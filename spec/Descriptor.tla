----------------------------- MODULE Descriptor -----------------------------
(***************************************************************************)
(* Type and method descriptors, and how they and the members they describe *)
(* are rendered.                                                           *)
(***************************************************************************)
EXTENDS ClassFile, TLC

BaseName == (66 :> Lit("byte")) @@ (67 :> Lit("char")) @@ (68 :> Lit("double"))
            @@ (70 :> Lit("float")) @@ (73 :> Lit("int")) @@ (74 :> Lit("long"))
            @@ (83 :> Lit("short")) @@ (86 :> Lit("void")) @@ (90 :> Lit("boolean"))

PrettyClass(t) == Replace(t, 47, 46)

\* one type starting at position i: [n |-> next position, raw, txt]
RECURSIVE TypeAt(_, _)
TypeAt(d, i) ==
  IF d[i] = 91
  THEN LET e == TypeAt(d, i + 1)
       IN [n |-> e.n, raw |-> <<91>> \o e.raw, txt |-> e.txt \o Lit("[]")]
  ELSE IF d[i] = 76
  THEN LET s == IndexFrom(d, 59, i)
       IN [n |-> s + 1, raw |-> SubSeq(d, i, s), txt |-> PrettyClass(SubSeq(d, i + 1, s - 1))]
  ELSE [n |-> i + 1, raw |-> <<d[i]>>, txt |-> BaseName[d[i]]]

RECURSIVE TypesAt(_, _, _)
TypesAt(d, i, stop) ==
  IF i >= stop THEN <<>>
  ELSE LET t == TypeAt(d, i) IN <<t>> \o TypesAt(d, t.n, stop)

IsMethodDesc(d) == d # <<>> /\ d[1] = 40
CloseParen(d) == IndexFrom(d, 41, 2)
Args(d) == TypesAt(d, 2, CloseParen(d))
Ret(d) == TypeAt(d, CloseParen(d) + 1)
Raws(ts) == [i \in 1..Len(ts) |-> ts[i].raw]
Txts(ts) == [i \in 1..Len(ts) |-> ts[i].txt]

Comma == <<44>>
Parens(t) == <<40>> \o t \o <<41>>

PrettyDesc(d) == IF IsMethodDesc(d)
                 THEN Parens(JoinText(Txts(Args(d)), Comma)) \o Ret(d).txt
                 ELSE TypeAt(d, 1).txt

(* what a constant is rendered as *)
RECURSIVE PrettyDeref(_, _)
PrettyDeref(cp, i) ==
  LET c == cp[i] IN
  CASE c[1] = 0 -> <<>>
    [] c[1] = TUtf8 -> c[2]
    [] c[1] = TString -> TextOf(cp, i)
    [] c[1] = TClass -> PrettyClass(TextOf(cp, i))
    [] c[1] = TField ->
         LET nt == cp[c[3]]
         IN PrettyClass(TextOf(cp, c[2])) \o <<46>> \o TextOf(cp, nt[2]) \o <<58>>
            \o TypeAt(TextOf(cp, nt[3]), 1).txt
    [] c[1] \in {TMethod, TIMethod} ->
         LET nt == cp[c[3]]
             d  == TextOf(cp, nt[3])
         IN PrettyClass(TextOf(cp, c[2])) \o <<46>> \o TextOf(cp, nt[2])
            \o Parens(JoinText(Txts(Args(d)), Comma)) \o <<58>> \o Ret(d).txt
    [] c[1] = TNameType -> TextOf(cp, c[2]) \o <<58>> \o PrettyDesc(TextOf(cp, c[3]))
    [] c[1] = TModuleId -> TextOf(cp, c[2]) \o <<64>> \o TextOf(cp, c[3])

(* ------------------------------------------------------- member views *)
MName(m, cp) == TextOf(cp, m.name)
MDesc(m, cp) == TextOf(cp, m.desc)
ArgRaws(m, cp, isM) == IF isM THEN Raws(Args(MDesc(m, cp))) ELSE <<>>
ArgTxts(m, cp, isM) == IF isM THEN Txts(Args(MDesc(m, cp))) ELSE <<>>
RetOf(m, cp, isM) == IF isM THEN Ret(MDesc(m, cp)) ELSE TypeAt(MDesc(m, cp), 1)

IsSynthetic(m) == Bit(m.access, FSynthetic) \/ HasAttr(m.attrs, ASynthetic)
IsDeprecated(attrs) == HasAttr(attrs, ADeprecated)

FlagWords(m, isM, showall) ==
  LET f(b, w) == IF Bit(m.access, b) THEN <<Lit(w)>> ELSE <<>>
  IN f(FPublic, "public") \o f(FPrivate, "private") \o f(FProtected, "protected")
     \o f(FStatic, "static") \o f(FFinal, "final") \o f(FStrict, "strict")
     \o f(FNative, "native") \o f(FAbstract, "abstract") \o f(FEnum, "enum")
     \o f(FModule, "module")
     \o (IF showall /\ IsSynthetic(m) THEN <<Lit("synthetic")>> ELSE <<>>)
     \o (IF isM
         THEN f(FSync, "synchronized")
              \o (IF showall THEN f(FBridge, "bridge") \o f(FVarargs, "varargs") ELSE <<>>)
         ELSE f(FTransient, "transient") \o f(FVolatile, "volatile"))

Init_ == Lit("<init>")

MemberDescriptorWords(m, cp, isM) ==
  LET nm == MName(m, cp)
      ex == ExceptionNames(m.attrs, cp)
      shown == IF isM THEN nm \o Parens(JoinText(ArgTxts(m, cp, isM), Comma)) ELSE nm
  IN FlagWords(m, isM, FALSE)
     \o (IF nm = Init_ THEN <<>> ELSE <<RetOf(m, cp, isM).txt>>)
     \o <<shown>>
     \o (IF ex = <<>> THEN <<>>
         ELSE <<Lit("throws"), JoinText([i \in 1..Len(ex) |-> PrettyClass(ex[i])], Comma)>>)

Identifier(m, cp, isM) ==
  IF ~isM THEN MName(m, cp)
  ELSE MName(m, cp) \o Parens(JoinText(ArgRaws(m, cp, TRUE), Comma))
       \o (IF Bit(m.access, FBridge) THEN <<58>> \o MDesc(m, cp) ELSE <<>>)

PrettyIdentifier(m, cp, isM) ==
  MName(m, cp) \o (IF isM THEN Parens(JoinText(ArgTxts(m, cp, TRUE), Comma)) ELSE <<>>)
  \o <<58>> \o RetOf(m, cp, isM).txt

(* ------------------------------------------------------- class views *)
ThisName(c) == TextOf(c.cp, c.this)
SuperName(c) == NameOf(c.cp, c.super)
IfaceNames(c) == [i \in 1..Len(c.ifaces) |-> TextOf(c.cp, c.ifaces[i])]

ClassFlagWords(c) ==
  LET f(b, w) == IF Bit(c.access, b) THEN <<Lit(w)>> ELSE <<>>
  IN f(FPublic, "public") \o f(FFinal, "final") \o f(FAbstract, "abstract")
     \o (IF Bit(c.access, FInterface)
         THEN (IF Bit(c.access, FAnnotation) THEN <<Lit("@interface")>> ELSE <<Lit("interface")>>)
         ELSE <<>>)
     \o f(FEnum, "enum")

ClassDescriptorWords(c) ==
  LET ifs == IfaceNames(c)
  IN ClassFlagWords(c)
     \o (IF Bit(c.access, FInterface) THEN <<>> ELSE <<Lit("class")>>)
     \o <<PrettyClass(ThisName(c)), Lit("extends")>>
     \o (IF SuperName(c) = <<>> THEN <<>> ELSE <<PrettyClass(SuperName(c))>>)
     \o (IF ifs = <<>> THEN <<>>
         ELSE <<Lit("implements"), JoinText([i \in 1..Len(ifs) |-> PrettyClass(ifs[i])], Comma)>>)

(* lookup *)
MethodsNamed(c, nm) == {i \in 1..Len(c.methods) : MName(c.methods[i], c.cp) = nm}
MethodMatch(c, nm, args) ==
  {i \in MethodsNamed(c, nm) : ~Bit(c.methods[i].access, FBridge)
                               /\ ArgRaws(c.methods[i], c.cp, TRUE) = args}
BridgeMatch(c, nm, args) ==
  {i \in MethodsNamed(c, nm) : Bit(c.methods[i].access, FBridge)
                               /\ ArgRaws(c.methods[i], c.cp, TRUE) = args}
FieldsNamed(c, nm) == {i \in 1..Len(c.fields) : MName(c.fields[i], c.cp) = nm}
MinOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y

(* ------------------------------------------------ provides, requires *)
Qual(c, m, isM) == PrettyClass(ThisName(c)) \o <<46>> \o PrettyIdentifier(m, c.cp, isM)
Provides(c, private) ==
  {PrettyClass(ThisName(c))}
  \cup {Qual(c, c.fields[i], FALSE) : i \in {j \in 1..Len(c.fields) : private \/ Bit(c.fields[j].access, FPublic)}}
  \cup {Qual(c, c.methods[i], TRUE) : i \in {j \in 1..Len(c.methods) : private \/ Bit(c.methods[j].access, FPublic)}}

RECURSIVE StripDims(_)
StripDims(t) == IF t # <<>> /\ Head(t) = 91 THEN StripDims(Tail(t)) ELSE t

\* the symbol a class, field or method reference denotes: a reference to or
\* through an array stands for its element class, if that is a class
Symbol(cp, i) ==
  LET owner == IF cp[i][1] = TClass THEN TextOf(cp, i) ELSE TextOf(cp, cp[i][2])
  IN IF owner # <<>> /\ Head(owner) = 91
     THEN LET e == StripDims(owner)
          IN IF Head(e) = 76 THEN <<PrettyClass(SubSeq(e, 2, Len(e) - 1))>> ELSE <<>>
     ELSE <<PrettyDeref(cp, i)>>

Requires(c) ==
  UNION {ToSetOf(Symbol(c.cp, i)) :
            i \in {j \in 1..Len(c.cp) : c.cp[j][1] \in {TClass, TField, TMethod, TIMethod}}}
  \ Provides(c, TRUE)
=============================================================================
