--------------------------- MODULE MC_ArchiveDiff ---------------------------
(***************************************************************************)
(* A jar, and a distribution holding it, are edited entry by entry.  Each  *)
(* edit says whether it changes anything that is compared and what options *)
(* cover it.  The specified comparison must be a change exactly when some  *)
(* edit is one, ignored exactly when all those are covered, list every     *)
(* entry once, and turn additions into removals when the sides are swapped.*)
(***************************************************************************)
EXTENDS ClassEnc, ArchiveDiff, Json, IOUtils
CONSTANTS MaxEdits, ScenEdits, ScenEvery

S(x) == Lit(x)
NL == <<LF>>
Line(k, v) == S(k) \o <<COLON, SP>> \o S(v) \o NL
C0 == [Blank EXCEPT !.major = 50, !.methods = <<[access |-> 1, name |-> S("m"), desc |-> S("()V"),
         attrs |-> <<<<"code", 1, 1, <<177>>, <<>>, <<<<"lines", <<<<0, 10>>>>>>>>>>>>]>>]
M0 == Line("Manifest-Version", "1.0") \o Line("Created-By", "me") \o NL
      \o Line("Name", "a.class") \o Line("X", "1") \o NL
SF0 == Line("Signature-Version", "1.0") \o Line("SHA-256-Digest-Manifest", "qq") \o NL

\* bodies in use, by name
B == ("class" :> Encode(C0))
  @@ ("class up" :> Encode([C0 EXCEPT !.major = 51]))
  @@ ("class padded" :> Encode([C0 EXCEPT !.extra = <<Utf(S("pad"))>>]))
  @@ ("class access" :> Encode([C0 EXCEPT !.access = 49]))
  @@ ("manifest" :> M0)
  @@ ("manifest crlf" :> FoldLeft(LAMBDA a, c : IF c = LF THEN a \o <<CR, LF>> ELSE Append(a, c), <<>>, M0))
  @@ ("manifest main" :> (Line("Manifest-Version", "1.0") \o Line("Created-By", "you") \o NL \o Line("Name", "a.class") \o Line("X", "1") \o NL))
  @@ ("manifest section" :> (Line("Manifest-Version", "1.0") \o Line("Created-By", "me") \o NL \o Line("Name", "a.class") \o Line("X", "2") \o NL))
  @@ ("manifest short" :> (Line("Manifest-Version", "1.0") \o Line("Created-By", "me") \o NL))
  @@ ("sf" :> SF0)
  @@ ("sf main" :> (Line("Signature-Version", "1.0") \o Line("SHA-256-Digest-Manifest", "zz") \o NL))
  @@ ("block" :> <<48, 0>>) @@ ("block 2" :> <<48, 1>>)
  @@ ("text" :> S("one") \o NL \o S("two")) @@ ("text ws" :> S("one ") \o <<CR, LF>> \o S("two") \o NL \o NL) @@ ("text 2" :> S("one") \o NL \o S("tw"))
  @@ ("bin" :> <<0>>) @@ ("bin 2" :> <<1>>)
Plain == {"class", "class up", "class padded", "class access", "manifest", "manifest crlf", "manifest main", "manifest section",
          "manifest short", "sf", "sf main", "block", "block 2", "text", "text ws", "text 2", "bin", "bin 2"}

Index == SetToSeq(Plain)
Id == [x \in Plain |-> CHOOSE i \in 1..Len(Index) : Index[i] = x]
JarL == Cardinality(Plain) + 1
JarRt == Cardinality(Plain) + 2

N == [m |-> MANIFEST, s |-> S("META-INF/A.SF"), k |-> S("META-INF/A.RSA"), c |-> S("a.class"), t |-> S("x.txt"), d |-> S("d/"), n |-> S("d/new.class"),
      p |-> S("META-INF/sig-1")]
E0 == <<[n |-> N.m, c |-> Id["manifest"]], [n |-> N.s, c |-> Id["sf"]], [n |-> N.k, c |-> Id["block"]], [n |-> N.c, c |-> Id["class"]], [n |-> N.t, c |-> Id["bin"]]>>

Set(a, n, b) == [i \in 1..Len(a) |-> IF a[i].n = n THEN [n |-> n, c |-> b] ELSE a[i]]
Del(a, n) == SelectSeq(a, LAMBDA e : e.n # n)
Add(a, n, b) == Append(a, [n |-> n, c |-> b])

En(n) == Tok("entry:", n)
Key(k) == {"anykey", Tok("key:", Lower(S(k)))}
\* edit |-> <<slot, is it a change, sets of options each of which covers it>>
JarEdits ==
  ("cls up" :> <<"c", TRUE, {{En(N.c)}, {"version_up", "pool"}}>>)
  @@ ("cls padded" :> <<"c", TRUE, {{En(N.c)}, {"pool"}}>>)
  @@ ("cls access" :> <<"c", TRUE, {{En(N.c)}}>>)
  @@ ("cls gone" :> <<"c", TRUE, {{En(N.c)}}>>)
  @@ ("cls new" :> <<"n", TRUE, {{En(N.n)}}>>)
  @@ ("mf crlf" :> <<"m", FALSE, {}>>)
  @@ ("mf main" :> <<"m", TRUE, {{En(N.m)}, {"manifest"}, Key("created-by")}>>)
  @@ ("mf section" :> <<"m", TRUE, {{En(N.m)}, {"manifest"}, {"manifest_subsections"}, Key("X")}>>)
  @@ ("mf short" :> <<"m", TRUE, {{En(N.m)}, {"manifest"}, {"manifest_subsections"}}>>)
  @@ ("mf gone" :> <<"m", TRUE, {{En(N.m)}}>>)
  @@ ("sf main" :> <<"s", TRUE, {{En(N.s)}, {"jar_signature"}, Key("SHA-256-Digest-Manifest")}>>)
  @@ ("sf gone" :> <<"s", TRUE, {{En(N.s)}, {"jar_signature"}}>>)
  @@ ("block" :> <<"k", TRUE, {{En(N.k)}, {"jar_signature"}}>>)
  @@ ("block new" :> <<"p", TRUE, {{En(N.p)}, {"jar_signature"}}>>)
  @@ ("txt" :> <<"t", TRUE, {{En(N.t)}}>>)
  @@ ("dir new" :> <<"d", TRUE, {{En(N.d)}}>>)
  @@ ("packed" :> <<"z", FALSE, {}>>)

JarApply(a, e) ==
  CASE e = "cls up" -> Set(a, N.c, Id["class up"])
    [] e = "cls padded" -> Set(a, N.c, Id["class padded"])
    [] e = "cls access" -> Set(a, N.c, Id["class access"])
    [] e = "cls gone" -> Del(a, N.c)
    [] e = "cls new" -> Add(a, N.n, Id["class"])
    [] e = "mf crlf" -> Set(a, N.m, Id["manifest crlf"])
    [] e = "mf main" -> Set(a, N.m, Id["manifest main"])
    [] e = "mf section" -> Set(a, N.m, Id["manifest section"])
    [] e = "mf short" -> Set(a, N.m, Id["manifest short"])
    [] e = "mf gone" -> Del(a, N.m)
    [] e = "sf main" -> Set(a, N.s, Id["sf main"])
    [] e = "sf gone" -> Del(a, N.s)
    [] e = "block" -> Set(a, N.k, Id["block 2"])
    [] e = "block new" -> Add(a, N.p, Id["block"])
    [] e = "txt" -> Set(a, N.t, Id["bin 2"])
    [] e = "dir new" -> Append(a, [n |-> N.d, c |-> 0])
    [] e = "packed" -> [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]

(* the distribution around it *)
P == [j |-> S("lib/a.jar"), c |-> S("cls/x.class"), t |-> S("conf.txt"), m |-> S("x/META-INF/MANIFEST.MF"), b |-> S("bin/data"), v |-> S("bin/data/x.war")]
Fl(p) == Tok("file:", p)
DistEdits ==
  ("txt" :> <<"t", TRUE, {{Fl(P.t)}}, {{Fl(P.t)}}>>)
  @@ ("txt ws" :> <<"t", TRUE, {{Fl(P.t)}, {"trailing_whitespace"}}, {{Fl(P.t)}}>>)
  @@ ("txt gone" :> <<"t", TRUE, {{Fl(P.t)}}, {{Fl(P.t)}}>>)
  @@ ("cls up" :> <<"c", TRUE, {{Fl(P.c)}, {"version_up", "pool"}}, {{Fl(P.c)}}>>)
  @@ ("cls access" :> <<"c", TRUE, {{Fl(P.c)}}, {{Fl(P.c)}}>>)
  @@ ("mf main" :> <<"m", TRUE, {{Fl(P.m)}, {"manifest"}, Key("CREATED-BY")}, {{Fl(P.m)}}>>)
  @@ ("mf crlf" :> <<"m", FALSE, {}, {{Fl(P.m)}}>>)
  @@ ("bin" :> <<"b", TRUE, {{Fl(P.b)}}, {{Fl(P.b)}}>>)
  @@ ("bin dir" :> <<"b", TRUE, {{Fl(P.b), Fl(P.v)}}, {{Fl(P.b), Fl(P.v)}}>>)

DSet(t, p, b) == [i \in 1..Len(t) |-> IF t[i].p = p THEN [p |-> p, c |-> b] ELSE t[i]]
DDel(t, p) == SelectSeq(t, LAMBDA e : e.p # p)
DistApply(t, e) ==
  CASE e = "txt" -> DSet(t, P.t, Id["text 2"])
    [] e = "txt ws" -> DSet(t, P.t, Id["text ws"])
    [] e = "txt gone" -> DDel(t, P.t)
    [] e = "cls up" -> DSet(t, P.c, Id["class up"])
    [] e = "cls access" -> DSet(t, P.c, Id["class access"])
    [] e = "mf main" -> DSet(t, P.m, Id["manifest main"])
    [] e = "mf crlf" -> DSet(t, P.m, Id["manifest crlf"])
    [] e = "bin" -> DSet(t, P.b, Id["bin 2"])
    [] e = "bin dir" -> Append(DDel(t, P.b), [p |-> P.v, c |-> Id["bin"]])
D0 == <<[p |-> P.c, c |-> Id["class"]], [p |-> P.t, c |-> Id["text"]], [p |-> P.m, c |-> Id["manifest"]], [p |-> P.b, c |-> Id["bin"]]>>

VARIABLES je, de
vars == <<je, de>>
Init == je = {} /\ de = {}
Next == /\ Cardinality(je) + Cardinality(de) < MaxEdits
        /\ \/ /\ \E e \in DOMAIN JarEdits : (\A x \in je : JarEdits[x][1] # JarEdits[e][1]) /\ je' = je \cup {e}
              /\ UNCHANGED de
           \/ /\ \E e \in DOMAIN DistEdits : (\A x \in de : DistEdits[x][1] # DistEdits[e][1]) /\ de' = de \cup {e}
              /\ UNCHANGED je

JarR(E) == FoldLeft(JarApply, E0, SetToSeq(E))
DistR(E) == FoldLeft(DistApply, D0, SetToSeq(E))

\* bodies as records, once for all
Recs == [i \in 1..Len(Index) |-> [b |-> B[Index[i]], a |-> <<>>]]
WithJars(E) == Recs \o <<[b |-> <<>>, a |-> E0], [b |-> <<>>, a |-> JarR(E)]>>
DistL == Append(D0, [p |-> P.j, c |-> JarL])
\* a jar rewritten is another file even when its content is the same
DistRR(E, F) == Append(DistR(F), [p |-> P.j, c |-> IF E = {} THEN JarL ELSE JarRt])

Covered(sets, o) == \E s \in sets : s \subseteq o
JOpts == {{}} \cup UNION {JarEdits[e][3] : e \in DOMAIN JarEdits}
DOpts == JOpts \cup UNION {DistEdits[e][3] : e \in DOMAIN DistEdits} \cup {{Fl(P.j)}}
\* one option, or all those that cover any of the edits but one option
Tries(base, mine) == base \cup {UNION mine} \cup {UNION (mine \ {x}) : x \in mine}

AsSpecified(t, o, changes, covers(_, _)) ==
  LET u == Masked(t, o)
  IN /\ u.c = (changes # {})
     /\ u.i = (changes # {} /\ \A e \in changes : covers(e, o))

JarRight ==
  LET bodies == Recs
      t == JarNode(E0, "zip", JarR(je), "zip", bodies)
      changes == {e \in je : JarEdits[e][2]}
      mine == UNION {JarEdits[e][3] : e \in je}
      cov(e, o) == Covered(JarEdits[e][3], o)
      kids == t.k[2].k
  IN de = {} =>
     /\ \A o \in Tries(JOpts, mine) : AsSpecified(t, o, changes, cov)
     \* every entry once
     /\ Len(kids) = Cardinality(Names(E0) \cup Names(JarR(je))) /\ NoDup([i \in 1..Len(kids) |-> kids[i].n])
     \* a zip against an exploded jar: the type is always a change
     /\ LET x == JarNode(E0, "zip", JarR(je), "dir", bodies) IN x.c /\ ~Masked(x, UNION mine \cup {"jar_signature", "manifest"}).i
     \* the other way round
     /\ LET x == JarNode(JarR(je), "zip", E0, "zip", bodies)
        IN x.c = t.c /\ Len(x.k[2].k) = Len(kids)

DistRight ==
  LET bodies == WithJars(je)
      t == DistNode(DistL, DistRR(je, de), bodies, FALSE)
      s == DistNode(DistL, DistRR(je, de), bodies, TRUE)
      cj == {<<"j", e>> : e \in {x \in je : JarEdits[x][2]}}
      cd == {<<"d", e>> : e \in {x \in de : DistEdits[x][2]}}
      mine == UNION {JarEdits[e][3] : e \in je} \cup UNION {DistEdits[e][3] : e \in de}
      cov(e, o) == IF e[1] = "j" THEN Covered(JarEdits[e[2]][3], o) \/ Fl(P.j) \in o ELSE Covered(DistEdits[e[2]][3], o)
      \* shallow: bytes are compared whatever the kind
      sall == (IF je = {} THEN {} ELSE {<<"j", CHOOSE e \in je : TRUE>>}) \cup {<<"d", e>> : e \in de}
      scov(e, o) == IF e[1] = "j" THEN Fl(P.j) \in o ELSE Covered(DistEdits[e[2]][4], o)
  IN /\ \A o \in Tries({{}, {Fl(P.j)}}, mine) : AsSpecified(t, o, cj \cup cd, cov) /\ AsSpecified(s, o, sall, scov)
     /\ Len(t.k) = Cardinality(FilesOf(DistL) \cup FilesOf(DistRR(je, de)))

(* scenarios: the edits made, with the bytes they need *)
RECURSIVE Picks(_, _)
Picks(T, k) == IF k = 0 THEN {{}} ELSE LET Q == Picks(T, k - 1)
  IN Q \cup {E \cup {e} : <<E, e>> \in {q \in Q \X DOMAIN T : \A x \in q[1] : T[x][1] # T[q[2]][1]}}
ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ LET bs == [i \in 1..Len(Index) |-> B[Index[i]]]
              js == SetToSeq(Picks(JarEdits, ScenEdits))
              ds == SetToSeq(Picks(DistEdits, ScenEdits))
          IN ndJsonSerialize(IOEnv.SCEN,
               <<[kind |-> "bodies", bodies |-> bs]>>
               \o [i \in 1..Len(js) |-> [kind |-> "jar", l |-> E0, r |-> JarR(js[i])]]
               \o [i \in 1..Len(ds) |-> [kind |-> "dist", l |-> D0, r |-> DistR(ds[i])]])
=============================================================================
