---------------------------- MODULE MC_Descriptor ----------------------------
(***************************************************************************)
(* Descriptors grown by the grammar's productions.  A type is built as a   *)
(* tree and rendered both ways: as a descriptor and, separately, as the    *)
(* Java type it denotes; reading the descriptor back must give that type.  *)
(***************************************************************************)
EXTENDS Descriptor, FiniteSets, Json, IOUtils
CONSTANTS MaxDims, MaxArgs, SmallArgs

Prims == ToSetOf(Lit("BCDFIJSZ"))
ClassNames == {Lit("A"), Lit("a/B"), Lit("java/lang/String"), Lit("L"), Lit("x/I$1")}
\* a tree: <<dims, "p", char>> or <<dims, "c", name>>
Elems == {<<"p", <<ch>>>> : ch \in Prims} \cup {<<"c", n>> : n \in ClassNames}
Few == {<<"p", Lit("I")>>, <<"p", Lit("J")>>, <<"c", Lit("a/B")>>, <<"c", Lit("L")>>}

Rep(s, n) == FlattenSeqs([i \in 1..n |-> s])
DescOf(t) == Rep(<<91>>, t[1]) \o (IF t[2][1] = "p" THEN t[2][2] ELSE <<76>> \o t[2][2] \o <<59>>)
JavaOf(t) == (IF t[2][1] = "p" THEN BaseName[t[2][2][1]] ELSE PrettyClass(t[2][2])) \o Rep(Lit("[]"), t[1])

Void == <<0, <<"p", Lit("V")>>>>

VARIABLES args, ret
vars == <<args, ret>>
Init == args = <<>> /\ ret = Void
Types(E, n) == (0..n) \X E
Next == \/ /\ Len(args) < MaxArgs
           /\ \E t \in Types(IF args = <<>> THEN Elems ELSE Few, MaxDims) : args' = Append(args, t)
           /\ UNCHANGED ret
        \/ /\ ret = Void
           /\ \E t \in Types(IF args = <<>> THEN Elems ELSE Few, MaxDims) : ret' = t
           /\ UNCHANGED args

MD == <<40>> \o FlattenSeqs([i \in 1..Len(args) |-> DescOf(args[i])]) \o <<41>> \o DescOf(ret)

ReadsBack == /\ Raws(Args(MD)) = [i \in 1..Len(args) |-> DescOf(args[i])]
             /\ Txts(Args(MD)) = [i \in 1..Len(args) |-> JavaOf(args[i])]
             /\ Ret(MD).raw = DescOf(ret) /\ Ret(MD).txt = JavaOf(ret)
FieldReadsBack == \A i \in 1..Len(args) : PrettyDesc(DescOf(args[i])) = JavaOf(args[i])

\* distinct types are shown differently
ASSUME \A s, t \in Types(Elems, MaxDims) : JavaOf(s) = JavaOf(t) => s = t
ASSUME LET S == UNION {[1..k -> Types(Few, 1)] : k \in 0..2}
           show(x) == Parens(JoinText([i \in 1..Len(x) |-> JavaOf(x[i])], Comma))
       IN Cardinality({show(x) : x \in S}) = Cardinality(S)

FieldDescs == {DescOf(t) : t \in Types(Elems, 3)}
MethodDescs ==
  {<<40>> \o FlattenSeqs([i \in 1..Len(a) |-> DescOf(a[i])]) \o <<41>> \o DescOf(r) :
     a \in UNION {[1..k -> Types(Few, 1)] : k \in 0..SmallArgs}, r \in {Void} \cup Types(Few, 1)}
  \cup {<<40>> \o DescOf(t) \o <<41>> \o DescOf(t) : t \in Types(Elems, 3)}
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[k |-> "f", d |-> d] : d \in FieldDescs}
                                               \cup {[k |-> "m", d |-> d] : d \in MethodDescs}))
=============================================================================
