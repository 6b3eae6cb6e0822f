----------------------------- MODULE MC_ProvReq -----------------------------
(***************************************************************************)
(* A class gains members and references one at a time; what it provides    *)
(* and requires is followed abstractly (sets of symbols maintained by the  *)
(* actions) and must be what the specification reads out of the bytes.     *)
(***************************************************************************)
EXTENDS ClassEnc, Descriptor, FiniteSets, Json, IOUtils
CONSTANTS MaxAdds, ScenAdds

Own == Lit("a/B")
S(x) == Lit(x)

MemberKinds == { <<"f", 1, S("x"), S("I"), S("a.B.x:int")>>, <<"f", 2, S("y"), S("[La/C;"), S("a.B.y:a.C[]")>>,
             <<"f", 4, S("x"), S("J"), S("a.B.x:long")>>,
             <<"m", 1, S("m"), S("(I[La/C;)V"), S("a.B.m(int,a.C[]):void")>>,
             <<"m", 2, S("m"), S("()[[D"), S("a.B.m():double[][]")>>,
             <<"m", 0, S("<init>"), S("()V"), S("a.B.<init>():void")>> }

\* references: entry and the symbols it brings
Refs == { <<Cls(S("c/D")), {S("c.D")}>>,
          <<Cls(S("[Lc/E;")), {S("c.E")}>>, <<Cls(S("[[[Lc/D;")), {S("c.D")}>>, <<Cls(S("[[I")), {}>>,
          <<Cls(S("[La/B;")), {}>>,
          <<<<"field", S("c/D"), S("f"), S("[I")>>, {S("c.D"), S("c.D.f:int[]")}>>,
          <<<<"field", Own, S("x"), S("I")>>, {S("a.B.x:int")}>>,
          <<<<"method", S("c/D"), S("g"), S("(J)Lc/E;")>>, {S("c.D"), S("c.D.g(long):c.E")}>>,
          <<<<"method", S("[Lc/E;"), S("clone"), S("()Ljava/lang/Object;")>>, {S("c.E")}>>,
          <<<<"method", Own, S("m"), S("()[[D")>>, {S("a.B.m():double[][]")}>>,
          <<<<"imethod", S("c/F"), S("h"), S("()V")>>, {S("c.F"), S("c.F.h():void")}>>,
          <<<<"nt", S("zz"), S("I")>>, {}>>, <<<<"string", S("c/G")>>, {}>>, <<Utf(S("c/H")), {}>> }

VARIABLES c, pub, all, refs, n
Init == /\ c = Blank /\ n = 0
        /\ pub = {S("a.B")} /\ all = {S("a.B")} /\ refs = {S("java.lang.Object")}
AddRef == \E x \in Refs : /\ c' = [c EXCEPT !.extra = Append(@, x[1])]
                          /\ refs' = refs \cup x[2] /\ UNCHANGED <<pub, all>>
AddMember == \E m \in MemberKinds :
   LET mem == [access |-> m[2], name |-> m[3], desc |-> m[4], attrs |-> <<>>]
   IN /\ c' = IF m[1] = "f" THEN [c EXCEPT !.fields = Append(@, mem)] ELSE [c EXCEPT !.methods = Append(@, mem)]
      /\ all' = all \cup {m[5]} /\ pub' = IF m[2] = 1 THEN pub \cup {m[5]} ELSE pub
      /\ UNCHANGED refs
Next == n < MaxAdds /\ n' = n + 1 /\ (AddRef \/ AddMember)

X == Class(Encode(c))
ProvidesRight == Provides(X, FALSE) = pub /\ Provides(X, TRUE) = all
RequiresRight == Requires(X) = refs \ all
Disjoint == Requires(X) \cap Provides(X, TRUE) = {}
Grows == [][all \subseteq all' /\ pub \subseteq pub' /\ refs \subseteq refs']_<<c, pub, all, refs, n>>

RECURSIVE Reach(_)
Step1(x) == {[x EXCEPT !.extra = Append(@, e[1])] : e \in Refs}
            \cup {[x EXCEPT !.fields = Append(@, [access |-> m[2], name |-> m[3], desc |-> m[4], attrs |-> <<>>])] : m \in {y \in MemberKinds : y[1] = "f"}}
            \cup {[x EXCEPT !.methods = Append(@, [access |-> m[2], name |-> m[3], desc |-> m[4], attrs |-> <<>>])] : m \in {y \in MemberKinds : y[1] = "m"}}
Reach(k) == IF k = 0 THEN {Blank} ELSE LET R == Reach(k - 1) IN R \cup UNION {Step1(x) : x \in R}
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[data |-> Encode(x)] : x \in Reach(ScenAdds)}))
=============================================================================
