---------------------------- MODULE MC_ChangeTree ----------------------------
(***************************************************************************)
(* Every small change tree under every short history of operations: once   *)
(* a verdict has been reached no operation alters it, squashing keeps it   *)
(* and the ignored state, and the simplified form is the admitted part.    *)
(***************************************************************************)
EXTENDS ChangeTree, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxKids, ScenOps

Leaves == {Leaf("Same", "a", "a", {"p"}), Leaf("Diff", "a", "b", {}), Leaf("Masked", "a", "b", {"p"}),
           Addn("Add", {"p"}), Addn("Add2", {}), Remn("Rem", {}), Remn("Rem2", {"p"})}
Groups == {Comp("Inner", ks) : ks \in BoundedSeq(Leaves, 1)} \cup {Comp("Inner2", <<Leaf("Masked", "a", "b", {"p"}), Leaf("Same", "a", "a", {})>>)}
Trees == {Comp("Root", ks) : ks \in BoundedSeq(Leaves \cup Groups, MaxKids)}

Opts == [ign : {{}, {"p"}}, si : BOOLEAN, su : BOOLEAN]
O(i, s, u) == [ign |-> i, si |-> s, su |-> u]

VARIABLES t, o, n, verdict
Ops == {<<"check", <<>>>>, <<"simplify", <<>>, o>>, <<"collect", <<>>>>, <<"squash", <<>>, o>>,
        <<"check", <<1>>>>, <<"squash", <<1>>, o>>, <<"replace", <<1>>, o>>}

V(x) == <<Changed(x), Ignored(x, o), [i \in 1..Len(x.kids) |-> <<Changed(x.kids[i]), Ignored(x.kids[i], o),
                                        Desc(x.kids[i]), IsAdd(x.kids[i]), IsRem(x.kids[i]), x.kids[i].label>>]>>
Init == t \in Trees /\ o \in [ign : {{}, {"p"}}, si : {FALSE}, su : {FALSE}] /\ n = 0 /\ verdict = <<>>
\* squashing is for reached verdicts
Enabled(op) == op[1] \in {"squash", "replace"} => verdict # <<>>
Next == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED o
        /\ \E op \in Ops : /\ Enabled(op)
                           /\ t' = Do(t, op)
                           /\ verdict' = IF op = <<"check", <<>>>> /\ verdict = <<>> THEN V(t') ELSE verdict

VerdictKept == verdict # <<>> => V(t) = verdict
Aggregates == verdict # <<>> =>
   /\ Changed(t) = (\E i \in 1..Len(t.kids) : Changed(t.kids[i]))
   /\ Ignored(t, o) = (Changed(t) /\ \A i \in 1..Len(t.kids) : Changed(t.kids[i]) => Ignored(t.kids[i], o))
\* with everything shown, nothing is left out; with nothing shown, exactly
\* the changes that are not ignored are
SimpleExact == verdict # <<>> =>
   /\ Len(Simple(t, [o EXCEPT !.si = TRUE, !.su = TRUE])[9]) = Len(t.kids)
   /\ (Simple(t, o)[9] = <<>>) = (~Changed(t) \/ Ignored(t, o))
SquashKeeps == verdict # <<>> =>
   LET s == Squash(t, o) IN Changed(s) = Changed(t) /\ Ignored(s, o) = Ignored(t, o) /\ Desc(s) = Desc(t)

\* scenario histories: random prefixes are the driver's business, these are
\* all trees with the histories that matter
Hist == {<<<<"check", <<>>>>, <<"squash", <<>>, x>>, <<"check", <<>>>>, <<"simplify", <<>>, x>>>> : x \in Opts}
        \cup {<<<<"simplify", <<>>, x>>, <<"check", <<>>>>, <<"squash", <<1>>, x>>, <<"check", <<>>>>,
                <<"replace", <<1>>, x>>, <<"check", <<>>>>>> : x \in {y \in Opts : ~y.su}}
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[t |-> tr, ops |-> h] : tr \in {Comp("Root", ks) : ks \in BoundedSeq(Leaves \cup Groups, ScenOps)}, h \in Hist}))
=============================================================================
