--------------------------- MODULE Trace_MpDist ---------------------------
(* Recorded runs of the real distdiff with reports, sequential and shared  *)
(* out.  What is seen of a run of MpDist are the examinations and how it   *)
(* ends; the entries and what they are worth come from ArchiveDiff.        *)
EXTENDS ArchiveDiff, TraceKit

Spoiled(a, b, bodies) ==
  \E n \in Names(a) \cap Names(b) :
     ~IsDirName(n) /\ Content(a, n) # Content(b, n) /\ (bodies[Content(a, n)].bad \/ bodies[Content(b, n)].bad)

\* entries which cannot be examined
FaultyIn(t) ==
  {p \in FilesOf(t.l) \cap FilesOf(t.r) :
     LET x == FileAt(t.l, p) y == FileAt(t.r, p)
         kind == DistKind(p, FALSE)
     IN x # y /\ CASE kind \in {"class", "manifest"} -> t.bodies[x].bad \/ t.bodies[y].bad
                   [] kind = "jar" -> Spoiled(t.bodies[x].a, t.bodies[y].a, t.bodies)
                   [] OTHER -> FALSE}

TStart(t) ==
  LET faulty == FaultyIn(t)
  IN [tree |-> IF faulty = {} THEN DistNode(t.l, t.r, t.bodies, FALSE) ELSE [n |-> "", c |-> FALSE, m |-> {}, k |-> <<>>],
      faulty |-> faulty,
      names |-> UNION {Names(t.bodies[i].a) : i \in 1..Len(t.bodies)},
      paths |-> {e[2] : e \in TreeEvents(t.l, t.r)},
      now |-> [how |-> "none"], seen |-> {}, rows |-> <<>>, files |-> {}, have |-> FALSE]

MaskedNow(s) == Masked(s.tree, Options(s.now.words, s.now.entries, s.now.files, s.now.keys, s.names, s.paths))
RowOf(k) == <<k.n, k.c, k.i>>

Bad2(s, ev) ==
  IF ev.k = "begin" THEN ""
  ELSE IF ev.k = "examine"
  THEN IF ev.e \notin s.paths THEN "examines what is no entry: " \o ToString(ev.e)
       ELSE IF ev.e \in s.seen THEN "examines an entry again: " \o ToString(ev.e)
       ELSE ""
  ELSE IF ev.outcome = "stuck" THEN "never ends: " \o ev.exc
  ELSE IF ev.outcome = "error"
  THEN IF s.faulty # {} \/ s.now.died THEN "" ELSE "fails without a cause: " \o ev.exc
  ELSE IF s.faulty # {} THEN "ends well although an entry could not be examined"
  ELSE IF s.now.observed /\ s.seen # s.paths
  THEN "not examined: " \o ToString(CHOOSE p \in s.paths : p \notin s.seen)
  ELSE LET t == MaskedNow(s)
           want == {RowOf(t.k[j]) : j \in 1..Len(t.k)}
           got == ToSetOf(ev.rows)
       IN IF ev.status # ExitStatus(t) THEN "exit status " \o ToString(ev.status)
          ELSE IF ev.verdict # Verdict(t) THEN "the verdict in the output"
          ELSE IF ev.top = <<>> THEN ""      \* the change itself was out of reach
          ELSE IF ev.top # Verdict(t) THEN "the verdict"
          ELSE IF ~NoDup(ev.rows) THEN "a child is listed twice"
          ELSE IF got # want THEN LET d == (got \ want) \cup (want \ got) x == CHOOSE y \in d : TRUE
                                  IN (IF x \in want THEN "no child " ELSE "a wrong child ") \o x[1] \o " changed=" \o ToString(x[2]) \o " ignored=" \o ToString(x[3])
          ELSE IF s.have /\ ev.rows # s.rows THEN "the children are in another order than sequentially"
          ELSE IF s.have /\ ToSetOf(ev.files) # s.files THEN "the report files are not those of the sequential comparison"
          ELSE ""
TBad(s, ev) == LET b == Bad2(s, ev)
               IN IF b = "" THEN "" ELSE b \o " [" \o s.now.how \o (IF "processes" \in DOMAIN s.now THEN " " \o ToString(s.now.processes) ELSE "") \o "]"

\* the first run is the sequential one
TAfter(s, ev) ==
  IF ev.k = "begin" THEN [s EXCEPT !.now = ev, !.seen = {}]
  ELSE IF ev.k = "examine" THEN [s EXCEPT !.seen = @ \cup {ev.e}]
  ELSE IF ev.outcome = "ok" /\ ~s.have
  THEN [s EXCEPT !.have = ev.top # <<>>, !.rows = ev.rows, !.files = ToSetOf(ev.files)]
  ELSE s
=============================================================================
