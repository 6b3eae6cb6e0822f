------------------------------ MODULE ClassEnc ------------------------------
(***************************************************************************)
(* The writer's side of the class file: a symbolic class and its bytes.    *)
(* Constants are symbolic entries:                                         *)
(*   <<"utf8", bytes>>  <<"int"|"float"|"long"|"double", bytes>>           *)
(*   <<"class"|"string"|"mtype"|"module"|"package", bytes>>                *)
(*   <<"field"|"method"|"imethod", class, name, desc>>  <<"nt", n, d>>     *)
(*   <<"moduleid", a, b>>  <<"handle", kind, entry>>                       *)
(*   <<"indy"|"dynamic", n, name, desc>>                                   *)
(* An attribute is <<name, entries it needs, F(pool)>> written out by      *)
(* kind; see AttrBytes.                                                    *)
(***************************************************************************)
EXTENDS ClassFile, TLC

E2(n) == <<n \div 256, n % 256>>
E4(n) == <<0, 0>> \o E2(n)

TagByte == ("utf8" :> 1) @@ ("int" :> 3) @@ ("float" :> 4) @@ ("long" :> 5) @@ ("double" :> 6)
           @@ ("class" :> 7) @@ ("string" :> 8) @@ ("field" :> 9) @@ ("method" :> 10)
           @@ ("imethod" :> 11) @@ ("nt" :> 12) @@ ("moduleid" :> 13) @@ ("handle" :> 15)
           @@ ("mtype" :> 16) @@ ("dynamic" :> 17) @@ ("indy" :> 18) @@ ("module" :> 19)
           @@ ("package" :> 20)

Utf(s) == <<"utf8", s>>
Cls(s) == <<"class", s>>

Parts(e) ==
  CASE e[1] \in {"utf8", "int", "float", "long", "double"} -> <<>>
    [] e[1] \in {"class", "string", "mtype", "module", "package"} -> <<Utf(e[2])>>
    [] e[1] \in {"field", "method", "imethod"} -> <<Cls(e[2]), <<"nt", e[3], e[4]>>>>
    [] e[1] \in {"nt", "moduleid"} -> <<Utf(e[2]), Utf(e[3])>>
    [] e[1] = "handle" -> <<e[3]>>
    [] e[1] \in {"indy", "dynamic"} -> <<<<"nt", e[3], e[4]>>>>

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

\* the pool with e and everything it refers to; references follow e
RECURSIVE AddEntry(_, _)
AddEntry(pool, e) ==
  IF InSeq(e, pool) THEN pool
  ELSE FoldLeft(AddEntry, Append(pool, e), Parts(e))
AddAll(pool, es) == FoldLeft(AddEntry, pool, es)

Width(e) == IF e[1] \in {"long", "double"} THEN 2 ELSE 1
RECURSIVE Widths(_)
Widths(pool) == IF pool = <<>> THEN 0 ELSE Width(Head(pool)) + Widths(Tail(pool))
\* index of the k-th entry, and of the first entry equal to e
IdxAt(pool, k) == 1 + Widths(SubSeq(pool, 1, k - 1))
Idx(pool, e) == IdxAt(pool, CHOOSE k \in 1..Len(pool) : pool[k] = e /\ \A j \in 1..(k-1) : pool[j] # e)

EntryBytes(pool, e) ==
  <<TagByte[e[1]]>> \o
  (CASE e[1] = "utf8" -> E2(Len(e[2])) \o e[2]
     [] e[1] \in {"int", "float", "long", "double"} -> e[2]
     [] e[1] = "handle" -> <<e[2]>> \o E2(Idx(pool, e[3]))
     [] e[1] \in {"indy", "dynamic"} -> E2(e[2]) \o E2(Idx(pool, Parts(e)[1]))
     [] OTHER -> FlattenSeqs([i \in 1..Len(Parts(e)) |-> E2(Idx(pool, Parts(e)[i]))]))

PoolBytes(pool) == E2(1 + Widths(pool))
                   \o FlattenSeqs([k \in 1..Len(pool) |-> EntryBytes(pool, pool[k])])

(* attributes: <<"raw", name, bytes>> <<"const", entry>> <<"exceptions", <<names>>>>
   <<"sig", text>> <<"source", text>> <<"flag", name>>
   <<"code", stack, locals, bytes, handlers, attrs>>   handler <<s, e, h, catch>>
   <<"lines", rows>> <<"vars", rows <<s, l, name, type, i>> >>
   <<"inner", rows <<inner, outer, name, flags>> >>
   <<"anno", name, <<type, key, tag, entry>> >>  one annotation, one element
   <<"codep", stack, locals, pieces, handlers, attrs>>  pieces of code:
       <<"b", bytes>> or <<"r", entry>> for a two byte pool index           *)
AName(a) ==
  CASE a[1] \in {"raw", "flag", "anno"} -> a[2]
    [] a[1] = "codep" -> ACode
    [] a[1] = "const" -> AConstVal
    [] a[1] = "exceptions" -> AExceptions
    [] a[1] = "sig" -> ASignature
    [] a[1] = "source" -> ASourceFile
    [] a[1] = "code" -> ACode
    [] a[1] = "lines" -> ALines
    [] a[1] = "vars" -> ALocals
    [] a[1] = "inner" -> AInner

RECURSIVE AEntries(_)
AEntries(a) ==
  <<Utf(AName(a))>> \o
  (CASE a[1] = "const" -> <<a[2]>>
     [] a[1] = "exceptions" -> [i \in 1..Len(a[2]) |-> Cls(a[2][i])]
     [] a[1] \in {"sig", "source"} -> <<Utf(a[2])>>
     [] a[1] = "vars" -> FlattenSeqs([i \in 1..Len(a[2]) |-> <<Utf(a[2][i][3]), Utf(a[2][i][4])>>])
     [] a[1] = "inner" -> FlattenSeqs([i \in 1..Len(a[2]) |->
                             <<Cls(a[2][i][1])>> \o (IF a[2][i][2] = <<>> THEN <<>> ELSE <<Cls(a[2][i][2])>>)
                             \o (IF a[2][i][3] = <<>> THEN <<>> ELSE <<Utf(a[2][i][3])>>)])
     [] a[1] = "anno" -> <<Utf(a[3][1]), Utf(a[3][2]), a[3][4]>>
     [] a[1] = "codep" -> FlattenSeqs([i \in 1..Len(a[4]) |-> IF a[4][i][1] = "r" THEN <<a[4][i][2]>> ELSE <<>>])
                          \o AEntries([a EXCEPT ![1] = "code", ![4] = <<>>])
     [] a[1] = "code" -> FlattenSeqs([i \in 1..Len(a[5]) |-> IF a[5][i][4] = <<>> THEN <<>> ELSE <<Cls(a[5][i][4])>>])
                         \o FlattenSeqs([i \in 1..Len(a[6]) |-> AEntries(a[6][i])])
     [] OTHER -> <<>>)

CodePieces(pool, ps) == FlattenSeqs([i \in 1..Len(ps) |-> IF ps[i][1] = "b" THEN ps[i][2] ELSE E2(Idx(pool, ps[i][2]))])
RECURSIVE ABytes(_, _)
ABytes(pool, a) ==
  IF a[1] = "codep" THEN ABytes(pool, [a EXCEPT ![1] = "code", ![4] = CodePieces(pool, a[4])])
  ELSE LET ix(e) == E2(Idx(pool, e))
      opt(e) == IF e[2] = <<>> THEN <<0, 0>> ELSE ix(e)
      d == CASE a[1] = "raw" -> a[3]
             [] a[1] = "flag" -> <<>>
             [] a[1] = "const" -> ix(a[2])
             [] a[1] = "exceptions" -> E2(Len(a[2])) \o FlattenSeqs([i \in 1..Len(a[2]) |-> ix(Cls(a[2][i]))])
             [] a[1] \in {"sig", "source"} -> ix(Utf(a[2]))
             [] a[1] = "anno" -> E2(1) \o ix(Utf(a[3][1])) \o E2(1) \o ix(Utf(a[3][2])) \o <<a[3][3]>> \o ix(a[3][4])
             [] a[1] = "lines" -> E2(Len(a[2])) \o FlattenSeqs([i \in 1..Len(a[2]) |-> E2(a[2][i][1]) \o E2(a[2][i][2])])
             [] a[1] = "vars" -> E2(Len(a[2])) \o FlattenSeqs([i \in 1..Len(a[2]) |->
                   E2(a[2][i][1]) \o E2(a[2][i][2]) \o ix(Utf(a[2][i][3])) \o ix(Utf(a[2][i][4])) \o E2(a[2][i][5])])
             [] a[1] = "inner" -> E2(Len(a[2])) \o FlattenSeqs([i \in 1..Len(a[2]) |->
                   ix(Cls(a[2][i][1])) \o opt(Cls(a[2][i][2])) \o opt(Utf(a[2][i][3])) \o E2(a[2][i][4])])
             [] a[1] = "code" -> E2(a[2]) \o E2(a[3]) \o E4(Len(a[4])) \o a[4]
                   \o E2(Len(a[5])) \o FlattenSeqs([i \in 1..Len(a[5]) |->
                        E2(a[5][i][1]) \o E2(a[5][i][2]) \o E2(a[5][i][3]) \o opt(Cls(a[5][i][4]))])
                   \o E2(Len(a[6])) \o FlattenSeqs([i \in 1..Len(a[6]) |-> ABytes(pool, a[6][i])])
  IN ix(Utf(AName(a))) \o E4(Len(d)) \o d

MEntries(m) == <<Utf(m.name), Utf(m.desc)>> \o FlattenSeqs([i \in 1..Len(m.attrs) |-> AEntries(m.attrs[i])])
AttrsBytes(pool, as) == E2(Len(as)) \o FlattenSeqs([i \in 1..Len(as) |-> ABytes(pool, as[i])])
MBytes(pool, m) == E2(m.access) \o E2(Idx(pool, Utf(m.name))) \o E2(Idx(pool, Utf(m.desc))) \o AttrsBytes(pool, m.attrs)

(* a symbolic class: [this, super, ifaces, access, major, minor, fields,
   methods, attrs, extra]; super = <<>> means none.  Extra entries come
   first in the pool, so that they shift everything else. *)
PoolOf(c) ==
  AddAll(<<>>, c.extra \o <<Cls(c.this)>> \o (IF c.super = <<>> THEN <<>> ELSE <<Cls(c.super)>>)
               \o [i \in 1..Len(c.ifaces) |-> Cls(c.ifaces[i])]
               \o FlattenSeqs([i \in 1..Len(c.fields) |-> MEntries(c.fields[i])])
               \o FlattenSeqs([i \in 1..Len(c.methods) |-> MEntries(c.methods[i])])
               \o FlattenSeqs([i \in 1..Len(c.attrs) |-> AEntries(c.attrs[i])]))

BodyBytes(pool, c) ==
  E2(c.access) \o E2(Idx(pool, Cls(c.this)))
  \o (IF c.super = <<>> THEN <<0, 0>> ELSE E2(Idx(pool, Cls(c.super))))
  \o E2(Len(c.ifaces)) \o FlattenSeqs([i \in 1..Len(c.ifaces) |-> E2(Idx(pool, Cls(c.ifaces[i])))])
  \o E2(Len(c.fields)) \o FlattenSeqs([i \in 1..Len(c.fields) |-> MBytes(pool, c.fields[i])])
  \o E2(Len(c.methods)) \o FlattenSeqs([i \in 1..Len(c.methods) |-> MBytes(pool, c.methods[i])])
  \o AttrsBytes(pool, c.attrs)

EncodeWith(pool, c) == Magic \o E2(c.minor) \o E2(c.major) \o PoolBytes(pool) \o BodyBytes(pool, c)
Encode(c) == LET p == PoolOf(c) IN EncodeWith(p, c)

Blank == [this |-> Lit("a/B"), super |-> Lit("java/lang/Object"), ifaces |-> <<>>, access |-> 33,
          major |-> 52, minor |-> 0, fields |-> <<>>, methods |-> <<>>, attrs |-> <<>>, extra |-> <<>>]
=============================================================================
