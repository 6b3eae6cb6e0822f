-------------------------- MODULE Trace_Aggregate --------------------------
(* What real jars and distributions answer.  What a class provides and     *)
(* requires is read out of its bytes.                                      *)
EXTENDS Descriptor, Aggregate, TraceKit

TStart(t) == [i \in 1..Len(t.bodies) |->
                LET x == Class(t.bodies[i]) IN [pub |-> Provides(x, FALSE), priv |-> Provides(x, TRUE), req |-> Requires(x)]]

Classes(s, cs) == {[e |-> cs[i].e, f |-> s[cs[i].b]] : i \in 1..Len(cs)}
Ranged(q) == {q[i] : i \in 1..Len(q)}
Pairs(got) == UNION {{<<got[i].s, [k |-> got[i].by[k].k, e |-> got[i].by[k].e, in |-> Ranged(got[i].by[k].in)]>> : k \in 1..Len(got[i].by)} : i \in 1..Len(got)}
\* none is told twice
Once(got) == /\ Cardinality({got[i].s : i \in 1..Len(got)}) = Len(got)
             /\ \A i \in 1..Len(got) : /\ Cardinality(Ranged(got[i].by)) = Len(got[i].by)
                                       /\ \A k \in 1..Len(got[i].by) : Cardinality(Ranged(got[i].by[k].in)) = Len(got[i].by[k].in)
AggregateBad(all, ev) ==
  LET want == {p \in all : ~GlobAny(ev.ign, p[1])}
      said == {ev.got[i].s : i \in 1..Len(ev.got)}
  IN IF said # Syms(want) THEN ev.what \o ": missing " \o ToString(Cardinality(Syms(want) \ said)) \o " invented " \o ToString(Cardinality(said \ Syms(want)))
     ELSE IF ~Once(ev.got) THEN ev.what \o ": told more than once"
     ELSE IF ev.full /\ Pairs(ev.got) # want THEN ev.what \o ": attributed to others"
     ELSE ""
TBad(s, ev) ==
  LET cs == Classes(s, ev.cs)
      js == {[e |-> ev.js[i].e, cs |-> Classes(s, ev.js[i].cs)] : i \in 1..Len(ev.js)}
      all == CASE ev.on = "jar" /\ ev.what = "provides" -> JarProvides(cs)
               [] ev.on = "jar" /\ ev.what = "requires" -> JarRequires(cs)
               [] ev.on = "dist" /\ ev.what = "provides" -> DistProvides(js, cs)
               [] ev.on = "dist" /\ ev.what = "requires" -> DistRequires(js, cs)
  IN IF ev.exc # "" THEN "it raised " \o ev.exc ELSE AggregateBad(all, ev)
TAfter(s, ev) == s
=============================================================================
