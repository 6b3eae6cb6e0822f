----------------------------- MODULE Aggregate -----------------------------
(***************************************************************************)
(* What jars and distributions provide and require, out of what each class *)
(* provides (pub), may be used by its neighbours (priv, pub among it) and  *)
(* requires (req).  A container holds classes, sets of [e |-> name, f |->  *)
(* facts]; a distribution also holds jars, sets of [e |-> name, cs |->     *)
(* classes].                                                               *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

PubOf(cs) == UNION {x.f.pub : x \in cs}
PrivOf(cs) == UNION {x.f.pub \cup x.f.priv : x \in cs}

\* sets of <<symbol, attribution>>
ByClass(e) == [k |-> "class", e |-> e, in |-> {}]
JarProvides(cs) == UNION {{<<s, ByClass(x.e)>> : s \in x.f.pub} : x \in cs}
JarRequires(cs) == UNION {{<<s, ByClass(x.e)>> : s \in x.f.req \ PrivOf(cs)} : x \in cs}

Syms(ps) == {p[1] : p \in ps}
\* a jar stands for those of its classes that are the reason
ByJar(j, ps, s) == [k |-> "jar", e |-> j.e, in |-> {p[2].e : p \in {q \in ps : q[1] = s}}]
DistProvides(js, cs) == JarProvides(cs) \cup UNION {LET ps == JarProvides(j.cs) IN {<<s, ByJar(j, ps, s)>> : s \in Syms(ps)} : j \in js}
\* what is there for everyone, and among the classes beside the jars
Satisfied(js, cs) == PrivOf(cs) \cup UNION {PubOf(j.cs) : j \in js}
DistRequires(js, cs) ==
  UNION {{<<s, ByClass(x.e)>> : s \in x.f.req \ Satisfied(js, cs)} : x \in cs}
  \cup UNION {LET ps == JarRequires(j.cs) IN {<<s, ByJar(j, ps, s)>> : s \in Syms(ps) \ Satisfied(js, cs)} : j \in js}
=============================================================================
