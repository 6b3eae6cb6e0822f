----------------------------- MODULE InfoText ------------------------------
(***************************************************************************)
(* What the information commands say about a class, a jar and a            *)
(* distribution: which parts of it, for which options, and in which words. *)
(* Names, values and descriptors are those the library gives (their own    *)
(* specifications are elsewhere); which members are shown is decided by    *)
(* their flags.  Texts are sequences of pieces.                            *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

\* options in effect
HEADER == 0
PUBLIC == 1
PACKAGE == 3
PRIVATE == 7
Effective(o) == [o EXCEPT !.lines = @ \/ o.verbose, !.locals = @ \/ o.verbose, !.code = @ \/ o.verbose, !.sigs = @ \/ o.verbose, !.consts = @ \/ o.verbose, !.zip = @ \/ o.verbose]

Odd(n) == n % 2 = 1
IsPublic(m) == Odd(m.flags)
IsProtected(m) == Odd(m.flags \div 4)
IsStatic(m) == Odd(m.flags \div 8)
Shown(o, m) == CASE o.show = PUBLIC -> IsPublic(m)
                 [] o.show = PACKAGE -> IsPublic(m) \/ IsProtected(m)
                 [] o.show = PRIVATE -> TRUE
                 [] OTHER -> FALSE

N(n) == ToString(n)
Ln(s) == <<s \o "\n">>
If(c, t) == IF c THEN t ELSE <<>>
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
\* one piece after another
RECURSIVE Whole(_, _, _)
Whole(q, i, j) == IF i > j THEN "" ELSE IF i = j THEN q[i] ELSE LET m == (i + j) \div 2 IN Whole(q, i, m) \o Whole(q, m + 1, j)
Text(q) == Whole(q, 1, Len(q))
RECURSIVE Sep(_, _)
Sep(q, s) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o s \o Sep(Tail(q), s)
Pad(n) == LET t == " " \o N(n) IN CASE n < 10 -> "  " \o t [] n < 100 -> " " \o t [] OTHER -> t
If2(a) == IF a = <<>> THEN "" ELSE "\t" \o Sep(a, ", ")
Each(q, F(_)) == Cat([i \in 1..Len(q) |-> F(q[i])])

Annos(as) == If(as # <<>>, Ln("  RuntimeVisibleAnnotations:") \o Cat([i \in 1..Len(as) |-> Ln("  " \o N(i - 1) \o ": " \o as[i])]))
Indent(o) == If(~(o.lines \/ o.code \/ o.sigs), <<"   ">>)
\* an optional text is a sequence of at most one
Or(x) == IF x = <<>> THEN "None" ELSE x[1]
Given(x) == x # <<>> /\ x[1] # ""

FieldText(o, m) ==
  Indent(o) \o Ln(m.desc \o ";")
  \o If(o.sigs, Ln("  Signature: " \o Or(m.sig)))
  \o If(o.verbose, Annos(m.annos)
                   \o If(m.value # <<>>, LET v == m.value[1] IN Ln("  Constant value: " \o v[1] \o " " \o v[2]))
                   \o Ln(""))

CodeText(o, m) ==
  Ln("  Code:")
  \o If(o.verbose, Ln("   Stack=" \o N(m.stack) \o ", Locals=" \o N(m.locals) \o ", Args_size=" \o N(m.args + IF IsStatic(m) THEN 0 ELSE 1)))
  \o Each(m.code, LAMBDA x : Ln("   " \o N(x.at) \o ":\t" \o x.op \o If2(x.args)))
  \o If(m.handlers # <<>>, Ln("  Exception table:") \o Ln("   from\tto\ttarget\ttype")
                           \o Each(m.handlers, LAMBDA h : Ln("  " \o Pad(h.from) \o "\t" \o Pad(h.to) \o "\t" \o Pad(h.at) \o "\t" \o h.type)))
Vars(head, last, q) ==
  If(q # <<>>, Ln("  " \o head \o ":") \o Ln("   Start  Length  Slot\tName\t" \o last)
               \o Each(q, LAMBDA v : Ln("   " \o N(v.at) \o "\t" \o N(v.len) \o "\t" \o N(v.slot) \o "\t" \o v.name \o "\t" \o v.type)))
MethodText(o, m) ==
  Indent(o) \o Ln(m.desc \o ";")
  \o If(o.sigs, Ln("  Signature: " \o Or(m.sig)))
  \o Annos(m.annos)
  \o If(o.code /\ m.has, CodeText(o, m))
  \o If(o.verbose, If(m.deprecated, Ln("  Deprecated: true")) \o If(m.synthetic, Ln("  Synthetic: true"))
                   \o If(Odd(m.flags \div 64), Ln("  Bridge: true")) \o If(Odd(m.flags \div 128), Ln("  Varargs: true")))
  \o If(o.lines /\ m.has /\ m.linenos # <<>>, Ln("  LineNumberTable:") \o Each(m.linenos, LAMBDA x : Ln("   line " \o N(x[2]) \o ": " \o N(x[1]))))
  \o If(o.locals /\ m.has, Vars("LocalVariableTable", "Descriptor", m.vars) \o Vars("LocalVariableTypeTable", "Signature", m.vartypes))
  \o If(o.verbose, If(m.throws # <<>>, Ln("  Exceptions:") \o Each(m.throws, LAMBDA x : Ln("   throws " \o x))) \o Ln(""))

Listing(head, syms) == Ln(head) \o Each(syms, LAMBDA x : Ln("  " \o x)) \o Ln("")
\* prov, req: what is left when ignored ones are out
ClassText(oo, f) ==
  LET o == Effective(oo) IN
  IF o.cprov \/ o.creq
  THEN If(o.cprov, Listing("class " \o f.name \o " provides:", f.prov)) \o If(o.creq, Listing("class " \o f.name \o " requires:", f.req))
  ELSE If(Given(f.source), Ln("Compiled from \"" \o f.source[1] \o "\""))
       \o <<f.desc>>
       \o If(o.verbose \/ o.show = HEADER,
             Ln("") \o If(Given(f.source), Ln("  SourceFile: \"" \o f.source[1] \o "\"")) \o If(Given(f.sig), Ln("  Signature: " \o f.sig[1]))
             \o Annos(f.annos) \o If(Given(f.encl), Ln("  EnclosingMethod: " \o f.encl[1]))
             \o Ln("  minor version: " \o N(f.minor)) \o Ln("  major version: " \o N(f.major))
             \o Ln("  Platform: " \o IF Given(f.platform) THEN f.platform[1] ELSE "unknown"))
       \o If(o.consts, Ln("  Constants pool:") \o Each(f.consts, LAMBDA x : Ln("const #" \o N(x.i) \o " = " \o x.t \o "\t" \o x.v \o ";")) \o Ln(""))
       \o If(o.show # HEADER, Ln("{") \o Each(f.fields, LAMBDA m : If(Shown(o, m), FieldText(o, m)))
                              \o Each(f.methods, LAMBDA m : If(Shown(o, m), MethodText(o, m))) \o Ln("}\n"))

\* jars: j.comp and j.size are of the files in it
\* the shares, in tenths of a percent, which it may be said to be (of nothing, it is nothing)
Shares(j) == IF j.size = 0 THEN {0}
             ELSE LET q == (1000 * j.comp) \div j.size
                      far(p) == LET d == 2 * p * j.size - 2000 * j.comp IN IF d < 0 THEN 0 - d ELSE d
                  IN {p \in {q, q + 1} : far(p) <= j.size}
ZipText(j, p) == Ln("Contains " \o N(j.files) \o " files, " \o N(j.dirs) \o " directories") \o Ln("Uncompressed size is " \o N(j.size))
                 \o Ln("Compressed size is " \o N(j.comp) \o " (" \o N(p \div 10) \o "." \o N(p % 10) \o "%)") \o Ln("")
Attrs(q) == Each(q, LAMBDA x : Ln("  " \o x[1] \o ": " \o x[2]))
ManifestText(j) ==
  IF ~j.hasmf THEN Ln("Manifest not present.") \o Ln("")
  ELSE Ln("Manifest main section:") \o Attrs(j.main) \o Each(j.subs, LAMBDA x : Ln("") \o Ln("Manifest sub-section:") \o Attrs(x)) \o Ln("")
JarText(oo, j, p) ==
  LET o == Effective(oo) IN
  If(o.zip, ZipText(j, p)) \o If(o.manifest, ManifestText(j))
  \o If(o.jprov, Listing("jar provides:", j.prov)) \o If(o.jreq, Listing("jar requires:", j.req))
  \o If(o.classes, Each(j.classes, LAMBDA x : Ln("Entry:  " \o x.e) \o ClassText(oo, x.f) \o Ln("")))
DistText(o, d) == If(o.dprov, Listing("distribution provides:", d.prov)) \o If(o.dreq, Listing("distribution requires:", d.req))

(***************************************************************************)
(* As JSON: a tree is the set of <<path, value>> of its leaves; a list     *)
(* also says how long it is.                                               *)
(***************************************************************************)
Str(s) == "s:" \o s
Int(n) == "i:" \o N(n)
Leaf(p, v) == {<<p, v>>}
ListOf(p, q, F(_, _)) == {<<p \o "/#", N(Len(q))>>} \cup UNION {F(p \o "/" \o N(i - 1), q[i]) : i \in 1..Len(q)}
Strings(p, q) == ListOf(p, q, LAMBDA pp, x : Leaf(pp, Str(x)))
When(c, s) == IF c THEN s ELSE {}
MemberTree(p, m, method) ==
  Leaf(p \o "/name", Str(m.name)) \cup Leaf(p \o "/type", Str(m.type)) \cup Strings(p \o "/access_flags", m.words)
  \cup When(Given(m.sig), Leaf(p \o "/signature", Str(m.sig[1]))) \cup When(m.deprecated, Leaf(p \o "/deprecated", "true"))
  \cup When(method, Strings(p \o "/arg_types", m.argtypes))
  \cup When(~method /\ m.value # <<>>, {<<p \o "/constant_value/#", "2">>} \cup Leaf(p \o "/constant_value/0", Str(m.value[1][1])) \cup Leaf(p \o "/constant_value/1", m.value[1][3]))
Visible(o, ms) == SelectSeq(ms, LAMBDA m : Shown(o, m))
ClassTree(oo, f) ==
  LET o == Effective(oo) IN
  When(o.cprov, Strings("/class_provides", f.prov)) \cup When(o.creq, Strings("/class_requires", f.req))
  \cup Leaf("/name", Str(f.name)) \cup Leaf("/extends", IF f.super = <<>> THEN "null" ELSE Str(f.super[1])) \cup Strings("/implements", f.ifaces)
  \cup Leaf("/source_file", IF f.source = <<>> THEN "null" ELSE Str(f.source[1]))
  \cup When(Given(f.sig), Leaf("/signature", Str(f.sig[1]))) \cup When(Given(f.encl), Leaf("/enclosing_method", Str(f.encl[1])))
  \cup ListOf("/version", <<f.major, f.minor>>, LAMBDA p, x : Leaf(p, Int(x)))
  \cup Leaf("/platform", IF f.platform = <<>> THEN "null" ELSE Str(f.platform[1]))
  \cup When(o.consts, ListOf("/constants_pool", f.consts, LAMBDA p, x : {<<p \o "/#", "3">>} \cup Leaf(p \o "/0", Int(x.i)) \cup Leaf(p \o "/1", Str(x.t)) \cup Leaf(p \o "/2", x.j)))
  \cup ListOf("/fields", Visible(o, f.fields), LAMBDA p, m : MemberTree(p, m, FALSE))
  \cup ListOf("/methods", Visible(o, f.methods), LAMBDA p, m : MemberTree(p, m, TRUE))
\* what is provided and required, with reasons, is in another specification
JarTree(oo, j, p) ==
  LET o == Effective(oo) IN
  When(o.zip, Leaf("/zip.type", Str(j.type)) \cup Leaf("/zip.file_count", Int(j.files)) \cup Leaf("/zip.dir_count", Int(j.dirs))
              \cup Leaf("/zip.uncompressed_size", Int(j.size)) \cup Leaf("/zip.compressed_size", Int(j.comp)) \cup Leaf("/zip.compress_percent", "f:" \o N(p)))
  \cup When(o.jprov, Strings("/jar.provides", j.prov)) \cup When(o.jreq, Strings("/jar.requires", j.req))
DistTree(o, d) == When(o.dprov, Strings("/dist.provides", d.prov)) \cup When(o.dreq, Strings("/dist.requires", d.req))
=============================================================================
