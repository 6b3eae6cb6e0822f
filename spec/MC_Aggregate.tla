---------------------------- MODULE MC_Aggregate ----------------------------
(***************************************************************************)
(* Collecting: the entries are visited one at a time in any order, with    *)
(* the maps kept as they grow; when everything was visited what nobody     *)
(* provides remains required.                                              *)
(***************************************************************************)
EXTENDS Aggregate, Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N,            \* how many of the classes
          Careless      \* what was provided so far is taken away at once (as a check of the properties)

K(pub, priv, req) == [pub |-> pub, priv |-> priv, req |-> req]
\* symbols: classes 10, 20, ..; their members next to them
Facts == << K({10, 11}, {12}, {21}), K({20, 21}, {22}, {12, 90}), K({30}, {}, {11, 20, 22, 90}), K({10}, {13}, {30, 91}), K({40, 90}, {}, {13}) >>
Where == {0, 1, 2}      \* beside the jars, in the first, in the second

VARIABLES kind, place, todo, jreq, jprov, jpriv, req, prov, sat, phase
vars == <<kind, place, todo, jreq, jprov, jpriv, req, prov, sat, phase>>
\* the same class may be there more than once
F(c) == Facts[kind[c]]
Init == /\ kind \in [1..N -> 1..Len(Facts)] /\ place \in [1..N -> Where]
        /\ todo = 1..N /\ phase = "jar1"
        /\ jreq = {} /\ jprov = {} /\ jpriv = {} /\ req = {} /\ prov = {} /\ sat = {}
Here == {c \in todo : place[c] = CASE phase = "jar1" -> 1 [] phase = "jar2" -> 2 [] OTHER -> 0}
Visit == \E c \in Here :
           LET f == F(c) IN
           /\ todo' = todo \ {c}
           /\ jreq' = jreq \cup {<<s, ByClass(c)>> : s \in IF Careless THEN f.req \ jpriv ELSE f.req}
           /\ jprov' = jprov \cup {<<s, ByClass(c)>> : s \in f.pub}
           /\ jpriv' = jpriv \cup f.pub \cup f.priv
           /\ UNCHANGED <<kind, place, req, prov, sat, phase>>
Seal == /\ Here = {} /\ phase # "done"
        /\ phase' = CASE phase = "jar1" -> "jar2" [] phase = "jar2" -> "loose" [] OTHER -> "done"
        /\ LET own == IF Careless THEN jreq ELSE {p \in jreq : p[1] \notin jpriv}
               j == [e |-> IF phase = "jar1" THEN 101 ELSE 102, cs |-> {}]
           IN IF phase = "loose"
              THEN /\ prov' = prov \cup jprov /\ sat' = sat \cup jpriv
                   /\ req' = {p \in req \cup jreq : p[1] \notin sat'}
              ELSE /\ prov' = prov \cup {<<s, ByJar(j, jprov, s)>> : s \in Syms(jprov)}
                   /\ req' = req \cup {<<s, ByJar(j, own, s)>> : s \in Syms(own)}
                   /\ sat' = sat \cup Syms(jprov)
        /\ jreq' = {} /\ jprov' = {} /\ jpriv' = {}
        /\ UNCHANGED <<kind, place, todo>>
Next == Visit \/ Seal

In(w) == {[e |-> c, f |-> F(c)] : c \in {x \in 1..N : place[x] = w}}
Jars == {[e |-> w[1], cs |-> In(w[2])] : w \in {<<101, 1>>, <<102, 2>>}}
Done == phase = "done"
Exact == Done => prov = DistProvides(Jars, In(0)) /\ req = DistRequires(Jars, In(0))
\* where classes lie is nothing to what is provided
All == {[e |-> c, f |-> F(c)] : c \in 1..N}
Placeless == Done => Syms(prov) = PubOf(All)
\* what is required is required by some class, and by exactly those that do
Reasons == Done => \A p \in req : IF p[2].k = "class" THEN p[1] \in F(p[2].e).req ELSE p[2].in # {} /\ \A c \in p[2].in : p[1] \in F(c).req
Unmet == Done => /\ Syms(req) \cap PubOf(All) = {}
                 /\ \A c \in 1..N : \A s \in F(c).req : s \in Syms(req) \/ s \in PrivOf(All)
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/
  ndJsonSerialize(IOEnv.SCEN, LET RECURSIVE seq(_)
                                  seq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE y \in x : TRUE IN <<e>> \o seq(x \ {e})
                              IN seq({[place |-> p, kind |-> k] : p \in [1..3 -> Where], k \in [1..3 -> 1..Len(Facts)]}))
=============================================================================
