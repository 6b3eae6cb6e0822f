---------------------------- MODULE Trace_Compare ----------------------------
(* Recorded comparisons of real archives and directory trees.              *)
EXTENDS Compare, TraceKit

Side(a, f) == IF f = "dir" THEN Exploded(a) ELSE a
TStart(t) == t

EvBad(want, ev) ==
  CASE ev.k = "events" ->
         IF Exactly(ev.out, want) THEN ""
         ELSE "events " \o ToString(ev.out) \o " must be " \o ToString(want)
    [] OTHER ->
         IF /\ (ev.skip = "added" \/ Exactly(ev.added, Group(want, RIGHT)))
            /\ (ev.skip = "removed" \/ Exactly(ev.removed, Group(want, LEFT)))
            /\ (ev.skip = "altered" \/ Exactly(ev.altered, Group(want, DIFF)))
            /\ (ev.skip = "same" \/ Exactly(ev.same, Group(want, SAME)))
         THEN "" ELSE "collected " \o ToString(ev) \o " must be " \o ToString(want)

\* the entries of one archive as read: name, content, size, checksum right
EntriesBad(t, ev) ==
  LET a == Side(IF ev.side = "l" THEN t.l ELSE t.r, ev.form)
      names == [i \in 1..Len(ev.rows) |-> ev.rows[i][1]]
      want == {<<n, IF IsDirName(n) THEN 0 ELSE Content(a, n),
                 IF IsDirName(n) THEN 0 ELSE t.sizes[Content(a, n)], TRUE>> : n \in Names(a)}
      files == {n \in Names(a) : ~IsDirName(n)}
      total == FoldSet(LAMBDA n, x : x + t.sizes[Content(a, n)], 0, files)
  IN IF ~(ToSetOf(ev.rows) = want /\ Len(names) = Len(a))
     THEN "entries of " \o ev.side \o " as " \o ev.form \o " read " \o ToString(ev.rows) \o " must be " \o ToString(want)
     ELSE IF NoDup(names) /\ (ev.rollup[1] # Cardinality(files) \/ ev.rollup[2] # Cardinality(Names(a)) - Cardinality(files)
                              \/ ev.rollup[4] # total \/ (ev.form = "dir" /\ ev.rollup[3] # total))
     THEN "totals " \o ToString(ev.rollup)
     ELSE ""

TreeOf(ev) == {<<ev.files[i][1], ev.files[i][2]>> : i \in 1..Len(ev.files)}
CopyBad(t, ev) ==
  IF ~Exactly(ev.copied, FilesOf(t.l)) THEN "copied names " \o ToString(ev.copied)
  ELSE IF ~(TreeOf(ev) = AfterCopy(t.l, t.r) /\ Len(ev.files) = Cardinality(AfterCopy(t.l, t.r)))
       THEN "after copying there is " \o ToString(ev.files) \o " must be " \o ToString(AfterCopy(t.l, t.r))
  ELSE IF ToSetOf(ev.dirs) # DirsAfterCopy(t.l, t.r) THEN "directories after copying " \o ToString(ev.dirs)
  ELSE ""

TBad(t, ev) ==
  CASE ev.k = "raised" -> "raised " \o ev.exc
    [] ev.k \in {"events", "collect"} ->
         EvBad(IF t.kind = "tree" THEN TreeEvents(t.l, t.r) ELSE ArchiveEvents(Side(t.l, ev.lf), Side(t.r, ev.rf)), ev)
    [] ev.k = "entries" -> EntriesBad(t, ev)
    [] ev.k = "copy" -> CopyBad(t, ev)
    [] ev.k = "stream" ->
         IF ev.out # t.zip THEN "is a zip stream as " \o ev.as \o ": " \o ToString(ev.out)
         ELSE IF ev.before # ev.after THEN "stream left at " \o ToString(ev.after) \o " not " \o ToString(ev.before)
         ELSE ""
    [] ev.k = "opened" ->
         IF ev.kind # t.opens THEN "opened as " \o ev.kind \o " must be " \o t.opens ELSE ""
    [] ev.k = "match" ->
         IF ev.out = GlobAny(t.pats, t.name) THEN "" ELSE "matching gave " \o ToString(ev.out)
TAfter(t, ev) == t
==============================================================================
