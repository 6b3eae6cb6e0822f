--------------------------- MODULE Trace_Manifest ---------------------------
(* Manifests written and read by the real code.                            *)
EXTENDS Manifest, TraceKit

Doc(d) == [ok |-> d.ok, main |-> Attrs(d.main), subs |-> {<<d.subs[i][1], Attrs(d.subs[i][2])>> : i \in 1..Len(d.subs)}]
Prim(p) == IF p = "sf" THEN SIGVERSION ELSE VERSION

TStart(t) == [prim |-> Prim(t.prim), doc |-> Doc(t.doc)]
Show(d) == ToString(d)

TBad(s, ev) ==
  CASE ev.k = "raised" -> "raised " \o ev.exc
    [] ev.k = "refused" -> IF Expressible(s.doc) THEN "refused a manifest which can be written: " \o Show(s.doc) ELSE ""
       \* a text and what was read from it
    [] ev.k = "read" ->
         LET want == Read(ev.data, s.prim)
         IN IF Doc(ev.out) = want THEN "" ELSE "read " \o Show(Doc(ev.out)) \o " must be " \o Show(want)
       \* a manifest and the text written for it
    [] ev.k = "write" ->
         LET want == IF ev.api THEN s.doc ELSE Read(ev.of, s.prim)
         IN IF Read(ev.data, s.prim) # want THEN "written text denotes " \o Show(Read(ev.data, s.prim)) \o " must be " \o Show(want)
            ELSE IF ~WellWritten(ev.data, ev.nl) THEN "written text has a line over 72 bytes, a stray line end or an unclosed section: " \o ToString(ev.data)
            ELSE ""
       \* sections written on their own are the sections of the whole
    [] ev.k = "parts" ->
         LET all == ReadSections(ev.whole)
             one == [i \in 1..Len(ev.parts) |-> ReadSections(ev.parts[i])]
         IN IF \E i \in 1..Len(one) : one[i].bad \/ Len(one[i].secs) # 1 THEN "a section on its own does not read as one section"
            ELSE IF all.bad \/ all.secs[1] # one[1].secs[1] \/ ToSetOf(all.secs) # {one[i].secs[1] : i \in 1..Len(one)}
                 THEN "the sections on their own are not those of the whole"
            ELSE ""
TAfter(s, ev) == s
=============================================================================
