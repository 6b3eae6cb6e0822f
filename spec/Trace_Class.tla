----------------------------- MODULE Trace_Class -----------------------------
(***************************************************************************)
(* Observations of one class file by the real decoder, checked against the *)
(* byte-level specification.  The abstract state of a trace is the decoded *)
(* class; every step is one public query (or one rejected/accepted load of *)
(* a damaged copy).                                                        *)
(***************************************************************************)
EXTENDS Descriptor, Disasm, FiniteSets, TraceKit

TStart(t) == [c |-> Class(t.data), d |-> t.data]

(* ------------------------------------------------------ constant pool *)
TypeWord(t) == CASE t = 1 -> "Utf8" [] t = 3 -> "int" [] t = 4 -> "float" [] t = 5 -> "long"
                 [] t = 6 -> "double" [] t = 7 -> "class" [] t = 8 -> "String" [] t = 9 -> "Field"
                 [] t = 10 -> "Method" [] t = 11 -> "InterfaceMethod" [] t = 12 -> "NameAndType"
                 [] t = 13 -> "ModuleId" [] t = 15 -> "MethodHandle" [] t = 16 -> "MethodType"
                 [] t = 17 -> "Dynamic" [] t = 18 -> "InvokeDynamic" [] t = 19 -> "Module"
                 [] t = 20 -> "Package"

RawOf(e) == IF e[1] \in {TUtf8, TInteger, TFloat, TLong, TDouble} THEN <<>> ELSE Tail(e)

\* NaN payloads are not preserved by every platform's conversions
IsNaN(v) == \/ v[1] = "f4" /\ v[2][1] % 128 = 127 /\ v[2][2] >= 128
               /\ (v[2][2] % 128 # 0 \/ v[2][3] # 0 \/ v[2][4] # 0)
            \/ v[1] = "f8" /\ v[2][1] % 128 = 127 /\ v[2][2] >= 240
               /\ (v[2][2] % 16 # 0 \/ \E i \in 3..8 : v[2][i] # 0)
SameVal(a, b) == a = b \/ (a[1] = b[1] /\ a[1] \in {"f4", "f8"} /\ IsNaN(a) /\ IsNaN(b))

PrettyOk(cp, i, seen) ==
  LET t == cp[i][1] IN
  CASE t \in {TInteger, TFloat, TLong, TDouble} ->
         seen[1] = "num" /\ SameVal(Deref(cp, i), seen[2])
    [] t \in {0, TUtf8, TString, TClass, TField, TMethod, TIMethod, TNameType, TModuleId} ->
         seen[1] = "txt" /\ seen[2] = PrettyDeref(cp, i)
    [] t \in {TMType, TModule, TPackage} ->
         seen[1] = "txt" /\ HasText(seen[2], TextOf(cp, i))
    [] t \in BootRef ->
         seen[1] = "txt" /\ HasText(seen[2], Dec(cp[i][2]))
    [] t = THandle ->
         seen[1] = "txt" /\ HasText(seen[2], PrettyDeref(cp, cp[i][3]))

Hash == <<35>>

\* A text is shown as it is, or with the customary escapes (\n, \x.., \u....,
\* \U........, a backslash before a quote or a backslash): either way nothing
\* of it is lost.
HexVal(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 65..70 -> ch - 55 [] ch \in 97..102 -> ch - 87 [] OTHER -> -1
IsHex(s, from, n) == from + n - 1 <= Len(s) /\ \A k \in from..(from + n - 1) : HexVal(s[k]) >= 0
RECURSIVE HexNum(_, _, _, _)
HexNum(s, from, n, acc) == IF n = 0 THEN acc ELSE HexNum(s, from + 1, n - 1, 16 * acc + HexVal(s[from]))
EscLen(ch) == CASE ch = 120 -> 2 [] ch = 117 -> 4 [] ch = 85 -> 8 [] OTHER -> 0
EscChar(ch) == CASE ch = 110 -> 10 [] ch = 116 -> 9 [] ch = 114 -> 13 [] ch = 97 -> 7 [] ch = 98 -> 8
                 [] ch = 102 -> 12 [] ch = 118 -> 11 [] ch = 48 -> 0 [] OTHER -> ch
RECURSIVE Unesc(_, _)
Unesc(s, k) ==
  IF k > Len(s) THEN <<>>
  ELSE IF s[k] # 92 \/ k = Len(s) THEN <<s[k]>> \o Unesc(s, k + 1)
  ELSE LET e == s[k + 1] n == EscLen(e) IN
       IF n > 0 /\ IsHex(s, k + 2, n) THEN <<HexNum(s, k + 2, n, 0)>> \o Unesc(s, k + 2 + n)
       ELSE <<EscChar(e)>> \o Unesc(s, k + 2)
ShownLimit == 600
TextShown(text, shown) == \/ text = shown
                          \/ Len(shown) > ShownLimit
                          \/ Unesc(shown, 1) = text
PValOk(cp, i, seen) ==
  LET c == cp[i] IN
  CASE c[1] = TUtf8 -> seen[1] = "txt" /\ TextShown(c[2], seen[2])
    [] c[1] = TInteger -> seen = <<"num", SignedInt(c[2])>>
    [] c[1] \in {TClass, TString} -> seen = <<"txt", Hash \o Dec(c[2])>>
    [] c[1] \in {TField, TMethod, TIMethod} -> seen = <<"txt", Hash \o Dec(c[2]) \o <<46>> \o Hash \o Dec(c[3])>>
    [] c[1] = TNameType -> seen = <<"txt", Hash \o Dec(c[2]) \o <<58>> \o Hash \o Dec(c[3])>>
    [] c[1] = TModuleId -> seen = <<"txt", Hash \o Dec(c[2]) \o <<64>> \o Hash \o Dec(c[3])>>
    [] OTHER -> TRUE

RowBad(cp, i, r) ==
  LET c == cp[i] IN
  IF r.tag # c[1] THEN "tag"
  ELSE IF c[1] = 0
  THEN (IF r.ptype = "" /\ r.pval = <<"none">> /\ r.pretty = <<"txt", <<>>>> THEN "" ELSE "unusable slot holds something")
  ELSE IF r.raw # RawOf(c) THEN "raw references"
  ELSE IF ~SameVal(Deref(cp, i), r.val) THEN "dereferenced value"
  ELSE IF r.ptype # TypeWord(c[1]) THEN "type name"
  ELSE IF ~PValOk(cp, i, r.pval) THEN "shown value"
  ELSE IF ~PrettyOk(cp, i, r.pretty) THEN "rendered value"
  ELSE ""

ConstsBad(cp, o) ==
  IF Len(o.rows) # Len(cp) THEN "constant count " \o ToString(Len(o.rows)) \o " not " \o ToString(Len(cp))
  ELSE LET bad == {i \in 1..Len(cp) : RowBad(cp, i, o.rows[i]) # ""}
           used == SelectSeq([i \in 1..Len(cp) |-> i], LAMBDA i : cp[i][1] # 0)
           lst == [k \in 1..Len(used) |-> <<used[k], cp[used[k]][1]>>]
           pls == [k \in 1..Len(used) |-> <<used[k], TypeWord(cp[used[k]][1])>>]
       IN IF bad # {}
          THEN LET i == MinOf(bad) IN "constant " \o ToString(i) \o " " \o RowBad(cp, i, o.rows[i])
                                      \o ": file has " \o ToString(cp[i]) \o " seen " \o ToString(o.rows[i])
          ELSE IF o.listing # lst THEN "listing of constants"
          ELSE IF o.plist # pls THEN "pretty listing of constants"
          ELSE IF \E k \in 1..Len(used) : ~SameVal(Deref(cp, used[k]), o.listvals[k]) THEN "listed values"
          ELSE IF o.zero # 0 THEN "index 0 dereferences to something"
          ELSE ""

(* ---------------------------------------------------------- structure *)
AttrSet(attrs) == {<<attrs[i].name, attrs[i].data>> : i \in 1..Len(attrs)}

CodeClauses(attrs, cp, seen) ==
  LET e == CodeOf(attrs, cp) IN
  IF e[1] = "none" \/ seen[1] = "none" THEN <<<<"code presence", e[1], seen[1]>>>>
  ELSE LET x == e[2]
           s == seen[2]
       IN << <<"max stack", x.stack, s.stack>>, <<"max locals", x.locals, s.locals>>,
             <<"code bytes", x.code, s.code>>, <<"exception table", x.handlers, s.handlers>>,
             <<"exception info", x.handlers, s.infos>>,
             <<"catch type text", [i \in 1..Len(x.handlers) |->
                  IF x.handlers[i][4][1] = "none" THEN Lit("any")
                  ELSE Lit("Class ") \o PrettyClass(x.handlers[i][4][2])], s.pcatch>>,
             <<"line numbers", x.lines, s.lines>>, <<"relative lines", RelLines(x.lines), s.rellines>>,
             <<"local variables", x.vars, s.vars>>, <<"local variable types", x.vartypes, s.vartypes>>,
             <<"code attributes", AttrSet(x.attrs), ToSetOf(s.attrs)>> >>

MemberClauses(m, cp, s) ==
  << <<"access flags", m.access, s.access>>, <<"name", MName(m, cp), s.name>>,
     <<"descriptor", MDesc(m, cp), s.desc>>,
     <<"attributes", AttrSet(m.attrs), ToSetOf(s.attrs)>>,
     <<"signature", OptText(m.attrs, ASignature, cp), s.signature>>,
     <<"module", OptText(m.attrs, AModule, cp), s.module>>,
     <<"deprecated", IsDeprecated(m.attrs), s.deprecated>>,
     <<"synthetic", IsSynthetic(m), s.synthetic>>,
     <<"constant value index", IF HasAttr(m.attrs, AConstVal) THEN Some(AttrRef(m.attrs, AConstVal)) ELSE None, s.constref>>,
     <<"constant value", TRUE,
        IF HasAttr(m.attrs, AConstVal)
        THEN s.constval[1] = "some" /\ SameVal(Deref(cp, AttrRef(m.attrs, AConstVal)), s.constval[2])
        ELSE s.constval = None>>,
     <<"exceptions", ExceptionNames(m.attrs, cp), s.exceptions>>,
     <<"annotation default", DefaultOf(m.attrs, cp), s.adefault>>,
     <<"dereferenced annotation default",
        LET v == DefaultOf(m.attrs, cp)
        IN IF v = None THEN None ELSE v[2], s.adeferred>>,
     <<"visible annotations", Annotations(m.attrs, AVisAnno, cp), s.annos>>,
     <<"invisible annotations", Annotations(m.attrs, AInvAnno, cp), s.iannos>>,
     <<"visible parameter annotations", ParamAnnotations(m.attrs, AVisPar, cp), s.pannos>>,
     <<"invisible parameter annotations", ParamAnnotations(m.attrs, AInvPar, cp), s.ipannos>> >>
  \o CodeClauses(m.attrs, cp, s.code)

Say(what, diff) == IF diff = <<>> THEN ""
                   ELSE what \o " " \o diff[1] \o ": file has " \o ToString(diff[2]) \o " but shown " \o ToString(diff[3])

RECURSIVE FirstBad(_)
FirstBad(ss) == IF ss = <<>> THEN "" ELSE IF Head(ss) # "" THEN Head(ss) ELSE FirstBad(Tail(ss))

MembersBad(what, ms, cp, ss) ==
  IF Len(ms) # Len(ss) THEN "number of " \o what
  ELSE FirstBad([i \in 1..Len(ms) |-> Say(what \o " " \o ToString(i), FirstDiff(MemberClauses(ms[i], cp, ss[i])))])

ClassClauses(c, o) ==
  << <<"version", <<c.major, c.minor>>, o.version>>, <<"access flags", c.access, o.access>>,
     <<"name", ThisName(c), o.this>>, <<"super", SuperName(c), o.super>>,
     <<"interfaces", IfaceNames(c), o.ifaces>>,
     <<"attributes", AttrSet(c.attrs), ToSetOf(o.attrs)>>,
     <<"source file", OptText(c.attrs, ASourceFile, c.cp), o.sourcefile>>,
     <<"signature", OptText(c.attrs, ASignature, c.cp), o.signature>>,
     <<"deprecated", IsDeprecated(c.attrs), o.deprecated>>,
     <<"inner classes", InnerOf(c.attrs, c.cp), o.inner>>,
     <<"enclosing method", EnclosingOf(c.attrs, c.cp), o.enclosing>>,
     <<"source debug extension", DebugExt(c.attrs), o.debugext>>,
     <<"platform", Platform(c), o.platform>>,
     <<"visible annotations", Annotations(c.attrs, AVisAnno, c.cp), o.annos>>,
     <<"invisible annotations", Annotations(c.attrs, AInvAnno, c.cp), o.iannos>> >>

ViewBad(c, o) ==
  FirstBad(<<Say("class", FirstDiff(ClassClauses(c, o))),
             MembersBad("field", c.fields, c.cp, o.fields),
             MembersBad("method", c.methods, c.cp, o.methods)>>)

(* ------------------------------------------------- names and lookups *)
NameClauses(m, cp, isM, s) ==
  << <<"type descriptor", RetOf(m, cp, isM).raw, s.ret>>, <<"argument descriptors", ArgRaws(m, cp, isM), s.args>>,
     <<"type", RetOf(m, cp, isM).txt, s.pret>>, <<"argument types", ArgTxts(m, cp, isM), s.pargs>>,
     <<"flags", FlagWords(m, isM, FALSE), s.flags>>, <<"all flags", FlagWords(m, isM, TRUE), s.allflags>>,
     <<"description", MemberDescriptorWords(m, cp, isM), s.words>>,
     <<"identifier", Identifier(m, cp, isM), s.ident>>,
     <<"pretty identifier", PrettyIdentifier(m, cp, isM), s.pident>>,
     <<"thrown exceptions", [i \in 1..Len(ExceptionNames(m.attrs, cp)) |-> PrettyClass(ExceptionNames(m.attrs, cp)[i])], s.pexc>>,
     <<"generic signature", OptText(m.attrs, ASignature, cp), s.psig>>,
     <<"flag predicates", TRUE, \A i \in 1..Len(s.is) : s.is[i][2] = Bit(m.access, s.is[i][1])>> >>

LookupOk(c, q) ==
  CASE q[1] = "field" -> q[4] = <<MinOf(FieldsNamed(c, q[2]))>>
    [] q[1] = "named" -> ToSetOf(q[4]) = MethodsNamed(c, q[2]) /\ Len(q[4]) = Cardinality(ToSetOf(q[4]))
    [] q[1] = "method" -> q[4] = <<MinOf(MethodMatch(c, q[2], q[3]))>>
    [] q[1] = "bridges" -> ToSetOf(q[4]) = BridgeMatch(c, q[2], q[3]) /\ Len(q[4]) = Cardinality(ToSetOf(q[4]))

NamesBad(c, o) ==
  LET cc == << <<"description", ClassDescriptorWords(c), o.cwords>>,
               <<"pretty name", PrettyClass(ThisName(c)), o.pthis>>,
               <<"pretty super", PrettyClass(SuperName(c)), o.psuper>>,
               <<"pretty interfaces", [i \in 1..Len(c.ifaces) |-> PrettyClass(IfaceNames(c)[i])], o.pifaces>>,
               <<"flags", ClassFlagWords(c), o.cflags>>,
               <<"flag predicates", TRUE, \A i \in 1..Len(o.cis) : o.cis[i][2] = Bit(c.access, o.cis[i][1])>> >>
      lk == {i \in 1..Len(o.lookups) : ~LookupOk(c, o.lookups[i])}
  IN FirstBad(<<Say("class", FirstDiff(cc))>>
       \o [i \in 1..Len(c.fields) |-> Say("field", FirstDiff(NameClauses(c.fields[i], c.cp, FALSE, o.fields[i])))]
       \o [i \in 1..Len(c.methods) |-> Say("method", FirstDiff(NameClauses(c.methods[i], c.cp, TRUE, o.methods[i])))]
       \o <<IF lk = {} THEN "" ELSE "lookup " \o ToString(o.lookups[MinOf(lk)])>>)

(* ------------------------------------------------ provides, requires *)
QueryBad(c, q) ==
  LET base == CASE q.q = "provides" -> Provides(c, FALSE)
                [] q.q = "private"  -> Provides(c, TRUE)
                [] q.q = "requires" -> Requires(c)
      want == {s \in base : ~GlobAny(q.ign, s)}
      got  == ToSetOf(q.got)
  IN IF want # got THEN q.q \o " ignoring " \o ToString(q.ign) \o ": missing " \o ToString(want \ got) \o " invented " \o ToString(got \ want)
     ELSE IF Len(q.got) # Cardinality(got) THEN q.q \o ": listed more than once"
     ELSE ""

(* -------------------------------------------------------- disassembly *)
RECURSIVE GroupLines(_, _, _)
GroupLines(rows, lines, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET ln == LineAt(lines, Head(rows)[1])
       IN IF acc # <<>> /\ acc[Len(acc)][1] = ln
          THEN GroupLines(Tail(rows), lines, [acc EXCEPT ![Len(acc)] = <<ln, ln - lines[1][2], Append(@[3], Head(rows)[1])>>])
          ELSE GroupLines(Tail(rows), lines, Append(acc, <<ln, ln - lines[1][2], <<Head(rows)[1]>>>>))

OneDisasm(attrs, cp, s) ==
  LET e == CodeOf(attrs, cp) IN
  IF e[1] = "none" THEN (IF s = <<>> THEN "" ELSE "code where there is none")
  ELSE IF s = <<>> THEN "code not shown"
  ELSE LET x == e[2]
           L == Disassembly(x.code)
           o == s[1]
           seen == [i \in 1..Len(o.rows) |-> <<o.rows[i][1], o.rows[i][2], o.rows[i][5]>>]
           diff == {i \in 1..Len(L) : i > Len(seen) \/ seen[i] # L[i]}
           nm == {i \in 1..Len(o.rows) : o.rows[i][3] \notin NamesOf(o.rows[i][2])}
           ck == {i \in 1..Len(o.rows) : o.rows[i][4] # (o.rows[i][2] \in ConstOps)}
           lb == {i \in 1..Len(o.lines) : o.lines[i][2] \notin LinesAt(x.lines, o.lines[i][1])}
       IN IF diff # {} THEN LET i == MinOf(diff) IN
               "instruction " \o ToString(i) \o " must be " \o ToString(L[i]) \o " but is "
               \o (IF i > Len(seen) THEN "missing" ELSE ToString(seen[i]))
          ELSE IF Len(seen) # Len(L) THEN "extra instructions"
          ELSE IF nm # {} THEN "mnemonic " \o ToString(o.rows[MinOf(nm)])
          ELSE IF ck # {} THEN "constant operand mark " \o ToString(o.rows[MinOf(ck)])
          ELSE IF lb # {} THEN "line for offset " \o ToString(o.lines[MinOf(lb)])
          ELSE IF x.lines # <<>> /\ o.groups # GroupLines(L, x.lines, <<>>) THEN "code by lines " \o ToString(o.groups)
          ELSE ""

DisasmBad(c, o) ==
  IF Len(o) # Len(c.methods) THEN "number of methods"
  ELSE FirstBad([i \in 1..Len(o) |-> OneDisasm(c.methods[i].attrs, c.cp, o[i])])

(* ------------------------------------------------------- damaged files *)
\* a proper prefix is never a class
PrefixesBad(s, e) ==
  LET n == IF s.c.ok THEN s.c.end ELSE Len(s.d)
      wrong == {i \in 1..Len(e.accepted) : e.accepted[i] < n}
  IN IF wrong # {} THEN "the first " \o ToString(e.accepted[MinOf(wrong)]) \o " of " \o ToString(n) \o " bytes were accepted as a class"
     ELSE ""

Damage(d, mut) == FoldLeft(LAMBDA a, m : [a EXCEPT ![m[1] + 1] = m[2]], d, mut)
MutantBad(s, e) ==
  LET x == Damage(s.d, e.mut)
      magic == Len(x) >= 4 /\ SubSeq(x, 1, 4) = Magic
  IN IF e.ok /\ ~Class(x).ok THEN "damaged file accepted: " \o ToString(e.mut)
     ELSE IF \E i \in 1..3 : e.isclass[i] # magic THEN "magic recognition " \o ToString(e.isclass)
     ELSE ""

TBad(s, e) ==
  CASE e.k = "load" -> IF s.c.ok = e.ok THEN "" ELSE
                         "a well-formed class file was not accepted: " \o ToString(e)
    [] e.k = "raised" -> e.what \o " raised " \o e.exc
    [] e.k = "consts" -> ConstsBad(s.c.cp, e.o)
    [] e.k = "view" -> ViewBad(s.c, e.o)
    [] e.k = "names" -> NamesBad(s.c, e.o)
    [] e.k = "provreq" -> FirstBad([i \in 1..Len(e.o) |-> QueryBad(s.c, e.o[i])])
    [] e.k = "disasm" -> DisasmBad(s.c, e.o)
    [] e.k = "prefixes" -> PrefixesBad(s, e)
    [] e.k = "mutant" -> MutantBad(s, e)

TAfter(s, e) == s
=============================================================================
