----------------------------- MODULE MC_MfCli ------------------------------
(***************************************************************************)
(* The manifest command: the files beneath a path are walked one at a      *)
(* time, in any order; each that is verified and not ignored becomes a     *)
(* section with its digests, written as text.  What is read back vouches   *)
(* for exactly those files, a verification says so, and what is asked for  *)
(* is what was stored.                                                     *)
(***************************************************************************)
EXTENDS JarSign, TLC, Json, IOUtils
CONSTANTS Careless      \* list the signature files as well (as a check of the properties)

Paths == <<Lit("a.txt"), Lit("c/d.class"), Lit("c/x:y"), Lit("META-INF/X.SF"), Lit("META-INF/c")>>
Ignores == {<<>>, <<Lit("*.txt")>>, <<Lit("c/*")>>, <<Lit("c*"), Lit("a*")>>, <<Lit("META-INF/?")>>, <<Lit("*")>>, <<Lit("[!c]*")>>}
Digests == {<<1>>, <<3, 2>>}
NLs == {<<LF>>, <<CR, LF>>}

VARIABLES tree, ign, algs, nl, todo, text
vars == <<tree, ign, algs, nl, todo, text>>

\* digests of contents as text: the algorithm and the content
Dg(a, c) == <<100, 48 + a, 48 + c>>
LineOf(k, v) == k \o <<COLON, SP>> \o v \o nl
RECURSIVE DigestLines(_, _)
DigestLines(c, i) == IF i > Len(algs) THEN <<>> ELSE LineOf(Algs[algs[i]] \o DIGEST, Dg(algs[i], c)) \o DigestLines(c, i + 1)

Init == /\ tree \in SUBSET (1..Len(Paths))
        /\ ign \in Ignores /\ algs \in Digests /\ nl \in NLs
        /\ todo = tree
        /\ text = LineOf(VERSION, ONE) \o nl
Listed(p) == (~Reserved(Paths[p]) \/ Careless) /\ ~GlobAny(ign, Paths[p])
Visit == \E p \in todo :
           /\ todo' = todo \ {p}
           /\ text' = IF Listed(p) THEN text \o LineOf(NAME, Paths[p]) \o DigestLines(p, 1) \o nl ELSE text
           /\ UNCHANGED <<tree, ign, algs, nl>>
Next == Visit

Doc == DocOf(text, VERSION)
RECURSIVE EntriesOf(_)
EntriesOf(t) == IF t = {} THEN <<>> ELSE LET p == CHOOSE x \in t : TRUE IN <<[n |-> Paths[p], c |-> p]>> \o EntriesOf(t \ {p})
Es == EntriesOf(tree)
Ig(n) == GlobAny(ign, n)
Faithful == todo = {} => CreatedBad(Dg, DocOf(<<>>, VERSION), algs, Ig, Es, Doc) = ""
\* what a verification reports are the ignored ones; nothing when lenient
Verifies == todo = {} => /\ EntryErrors(Dg, Doc, Es, TRUE) = {Paths[p] : p \in {q \in tree : ~Reserved(Paths[q]) /\ Ig(Paths[q])}}
                         /\ EntryErrors(Dg, Doc, Es, FALSE) = {}
\* a changed content is noticed, and only that
Notices == todo = {} => \A p \in tree :
             LET es == [i \in 1..Len(Es) |-> IF Es[i].c = p THEN [Es[i] EXCEPT !.c = 9] ELSE Es[i]]
             IN EntryErrors(Dg, Doc, es, FALSE) = IF Listed(p) /\ ~Reserved(Paths[p]) THEN {Paths[p]} ELSE {}
Answers == todo = {} => \A p \in tree : Listed(p) =>
             /\ QueryLine(Doc, Paths[p] \o <<COLON>> \o NAME) = Paths[p] \o <<COLON>> \o NAME \o Lit(" = ") \o Paths[p] \o <<LF>>
             /\ \A i \in 1..Len(algs) : LET q == Paths[p] \o <<COLON>> \o Algs[algs[i]] \o DIGEST IN QueryLine(Doc, q) = q \o Lit(" = ") \o Dg(algs[i], p) \o <<LF>>

ASSUME ("SCEN" \notin DOMAIN IOEnv) \/
  ndJsonSerialize(IOEnv.SCEN, LET RECURSIVE seq(_)
                                  seq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE y \in x : TRUE IN <<e>> \o seq(x \ {e})
                              IN seq({[tree |-> {Paths[p] : p \in t}, ign |-> i, algs |-> a] : t \in SUBSET (1..Len(Paths)), i \in Ignores, a \in Digests}))
=============================================================================
