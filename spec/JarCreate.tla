----------------------------- MODULE JarCreate -----------------------------
(***************************************************************************)
(* Jars made of files.  The filesystem is a set of nodes [p |-> sequence   *)
(* of names, dir |-> BOOLEAN, c |-> content]; the arguments are paths      *)
(* relative to a directory, or absolute.                                   *)
(***************************************************************************)
EXTENDS JarSign

SLASH == 47
DOT == Lit(".")
DOTS == Lit("..")
\* a path as [abs, parts], with empty parts and "." dropped
RECURSIVE Parts(_)
Parts(t) == LET i == IndexFrom(t, SLASH, 1)
            IN IF i = 0 THEN IF t \in {<<>>, DOT} THEN <<>> ELSE <<t>>
               ELSE LET h == SubSeq(t, 1, i - 1) IN (IF h \in {<<>>, DOT} THEN <<>> ELSE <<h>>) \o Parts(SubSeq(t, i + 1, Len(t)))
IsAbs(t) == t # <<>> /\ t[1] = SLASH
\* ".." takes back the part before it
RECURSIVE Back(_, _)
Back(ps, acc) == IF ps = <<>> THEN acc
                 ELSE IF Head(ps) = DOTS /\ acc # <<>> /\ acc[Len(acc)] # DOTS THEN Back(Tail(ps), SubSeq(acc, 1, Len(acc) - 1))
                 ELSE Back(Tail(ps), Append(acc, Head(ps)))
Normal(t) == LET n == Back(Parts(t), <<>>) IN IF IsAbs(t) THEN SelectSeq(n, LAMBDA x : x # DOTS) ELSE n
\* where it is
Place(cwd, t) == LET n == Back((IF IsAbs(t) THEN <<>> ELSE cwd) \o Parts(t), <<>>) IN SelectSeq(n, LAMBDA x : x # DOTS)
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<SLASH>> \o Joined(Tail(ps))

Beneath(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
\* what an argument puts into the jar: the node itself, and all beneath it
Given(fs, cwd, jar, arg) ==
  LET at == Place(cwd, arg)
  IN {[n |-> LET nm == Joined(Normal(arg) \o SubSeq(x.p, Len(at) + 1, Len(x.p))) IN IF x.dir THEN nm \o <<SLASH>> ELSE nm, x |-> x] :
        x \in {y \in fs : Beneath(at, y.p) /\ y.p # jar}}
METAINF == Lit("META-INF/")
MFNAME == Lit("META-INF/MANIFEST.MF")
\* (the working directory itself has no name)
Wanted(fs, cwd, jar, args) ==
  {g \in UNION {Given(fs, cwd, jar, args[i]) : i \in 1..Len(args)} : g.n \notin {<<SLASH>>, METAINF, MFNAME}}

MAIN == Lit("Main-Class")
\* es: entries [n, c], the manifest's content as a document
CreateBad(fs, cwd, jar, args, main, es, doc) ==
  LET w == Wanted(fs, cwd, jar, args)
      names == {es[i].n : i \in 1..Len(es)}
      own == {METAINF, MFNAME}
      rest == SelectSeq(es, LAMBDA e : e.n \notin own)
  IN IF Cardinality(names) # Len(es) THEN "an entry is there more than once"
     ELSE IF MFNAME \notin names THEN "there is no manifest"
     ELSE IF SelectSeq(es, LAMBDA e : e.n # METAINF)[1].n # MFNAME THEN "the manifest does not come first"
     ELSE IF ~doc.ok \/ doc.names # {} \/ doc.main # {<<VERSION, ONE>>} \cup main THEN "the manifest says something else"
     ELSE IF names \ own # {g.n : g \in w} THEN "the names are not those of the files given"
     ELSE IF \E i \in 1..Len(rest) : \A g \in w : g.n # rest[i].n \/ g.x.c # rest[i].c THEN "an entry has another content than its file"
     ELSE ""
=============================================================================
