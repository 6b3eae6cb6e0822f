--------------------------- MODULE MC_JarCreate ----------------------------
(***************************************************************************)
(* Making a jar: the arguments are taken one after another, what is        *)
(* beneath each is found in any order, the jar itself is there while that  *)
(* goes on.  When it is done the jar has what was asked for.               *)
(***************************************************************************)
EXTENDS JarCreate, TLC, Json, IOUtils
CONSTANTS Careless,     \* whatever is found is put in (as a check of the properties)
          MaxArgs

A == Lit("a")
F(p, c) == [p |-> p, dir |-> FALSE, c |-> c]
D(p) == [p |-> p, dir |-> TRUE, c |-> 0]
MI == Lit("META-INF")
Tree == {D(<<>>), D(<<A>>), F(<<A, Lit("b")>>, 1), D(<<A, Lit("c")>>), F(<<A, Lit("c"), Lit("d")>>, 2), D(<<MI>>),
         F(<<MI, Lit("MANIFEST.MF")>>, 3), F(<<MI, Lit("x")>>, 4), F(<<Lit("b")>>, 5)}
Args == {Lit("a"), Lit("./a//b"), Lit("a/"), Lit("."), Lit("a/c/.."), Lit("a/c"), Lit("/a/c"), Lit("META-INF"), Lit("b"), Lit("META-INF/MANIFEST.MF"), Lit("/")}
Inner == {Lit("b"), Lit("../b"), Lit("."), Lit(".."), Lit("c"), Lit("../a/c/d"), Lit("/a/b")}
Jars == {<<Lit("j")>>, <<A, Lit("j")>>, <<Lit("a"), Lit("c"), Lit("j")>>}
Mains == {{}, {<<MAIN, Lit("x.Y")>>}}

VARIABLES cwd, args, jar, main, todo, found, es
vars == <<cwd, args, jar, main, todo, found, es>>
FS == Tree \cup {F(jar, 9)}

Init == /\ cwd \in {<<>>, <<A>>} /\ args \in UNION {[1..n -> IF cwd = <<>> THEN Args ELSE Inner] : n \in 0..MaxArgs}
        /\ jar \in Jars /\ main \in Mains
        /\ todo = args /\ found = <<>>
        /\ es = <<[n |-> METAINF, c |-> 0], [n |-> MFNAME, c |-> 0]>>
RECURSIVE AsSeq(_)
AsSeq(x) == IF x = {} THEN <<>> ELSE LET e == CHOOSE y \in x : TRUE IN <<e>> \o AsSeq(x \ {e})
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* the next argument is looked at; what is beneath it is found in one order, or the other
Look == /\ found = <<>> /\ todo # <<>>
        /\ LET at == Place(cwd, todo[1])
               all == {[n |-> LET m == Joined(Normal(todo[1]) \o SubSeq(x.p, Len(at) + 1, Len(x.p))) IN IF x.dir THEN m \o <<SLASH>> ELSE m, x |-> x] :
                          x \in {y \in FS : Beneath(at, y.p)}}
           IN found' \in {AsSeq(all), Reversed(AsSeq(all))}
        /\ todo' = Tail(todo) /\ UNCHANGED <<cwd, args, jar, main, es>>
Put == /\ found # <<>>
       /\ found' = Tail(found)
       /\ LET g == found[1]
          IN es' = IF ~Careless /\ (g.n = <<SLASH>> \/ g.x.p = jar \/ \E i \in 1..Len(es) : es[i].n = g.n) THEN es
                   ELSE Append(es, [n |-> g.n, c |-> g.x.c])
       /\ UNCHANGED <<cwd, args, jar, main, todo>>
Next == Look \/ Put

Doc == [ok |-> TRUE, main |-> {<<VERSION, ONE>>} \cup main, names |-> {}]
Done == todo = <<>> /\ found = <<>>
Right == Done => CreateBad(FS, cwd, jar, args, main, es, Doc) = ""
\* what is in it can only have come from the arguments
Contained == \A i \in 1..Len(es) : es[i].n \in {METAINF, MFNAME} \/
               \E k \in 1..Len(args) : LET nm == Joined(Normal(args[k])) IN nm = <<>> \/ Beneath(nm, es[i].n)
Whole == Done => \A k \in 1..Len(args) : \A x \in FS :
           (x.p = Place(cwd, args[k]) /\ ~x.dir /\ x.p # jar /\ Joined(Normal(args[k])) # MFNAME) => \E i \in 1..Len(es) : es[i].n = Joined(Normal(args[k])) /\ es[i].c = x.c

ASSUME ("SCEN" \notin DOMAIN IOEnv) \/
  ndJsonSerialize(IOEnv.SCEN,
    AsSeq({[cwd |-> <<>>, args |-> a, jar |-> j] : a \in UNION {[1..n -> Args] : n \in 0..2}, j \in Jars}
          \cup {[cwd |-> <<A>>, args |-> a, jar |-> j] : a \in UNION {[1..n -> Inner] : n \in 0..2}, j \in Jars}))
=============================================================================
