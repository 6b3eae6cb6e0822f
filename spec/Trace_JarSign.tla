--------------------------- MODULE Trace_JarSign ---------------------------
(* Jars signed, altered and verified by the real code and by others.       *)
(* Contents are numbers into bodies; a document's text comes with it.      *)
(* Digests of texts and contents, and whether a block signs a signature    *)
(* file, are facts of the trace, established without the real code.        *)
EXTENDS JarSign, TraceKit

NoDocs == [mf |-> NoDoc, sf |-> NoDoc]
TStart(t) ==
  [bodies |-> [i \in 1..Len(t.bodies) |->
                 [d |-> t.bodies[i].d,
                  doc |-> IF t.bodies[i].t THEN [mf |-> DocOf(t.bodies[i].b, VERSION), sf |-> DocOf(t.bodies[i].b, SIGVERSION)] ELSE NoDocs]],
   raws |-> t.raws]

DigestOf(s, alg, x) == s.raws[CHOOSE i \in 1..Len(s.raws) : s.raws[i].b = x].d[alg]
DocIn(s, c, p) == IF p = VERSION THEN s.bodies[c].doc.mf ELSE s.bodies[c].doc.sf
Says(fs, b, sf) == LET f == fs[CHOOSE i \in 1..Len(fs) : fs[i].b = b /\ fs[i].s = sf] IN f.ok /\ f.u # "other"
Verdict(s, es, given, name, fs) ==
  LET d(a, x) == DigestOf(s, a, x)
      dc(a, c) == s.bodies[c].d[a]
      sig(b, x) == Says(fs, b, x)
      doc(c, p) == DocIn(s, c, p)
  IN Outcomes(d, dc, sig, doc, es, given, name)
\* the names an error must tell
Broken(s, es, given, name, out) ==
  LET d(a, x) == DigestOf(s, a, x)
      dc(a, c) == s.bodies[c].d[a]
      mf == DocIn(s, ContentOf(es, MF_NAME), VERSION)
  IN CASE out = "ManifestChecksumError" -> ManifestErrors(d, DocIn(s, ContentOf(es, Chosen(es, given, name).n), SIGVERSION), mf)
       [] out = "JarChecksumError" -> EntryErrors(dc, mf, es, TRUE)
       [] OTHER -> {}
ToSet1(x) == {x[i] : i \in 1..Len(x)}
Show(x) == ToString(x)
\* as text, when it is
RECURSIVE Chars(_)
Chars(t) == IF t = <<>> THEN "" ELSE (IF Head(t) \in 32..126 THEN SubSeq(Ascii, Head(t) - 31, Head(t) - 31) ELSE "?") \o Chars(Tail(t))
Texts(ts) == {Chars(x) : x \in ts}

TBad(s, ev) ==
  CASE ev.k = "signed" ->
         LET d(a, x) == DigestOf(s, a, x)
             dc(a, c) == s.bodies[c].d[a]
             sig(b, x) == ev.ok
             doc(c, p) == DocIn(s, c, p)
         IN IF ev.strays # <<>> THEN "signing left files behind"
            ELSE IF ev.out /\ ~ev.same THEN "signing to another file changed the jar"
            ELSE IF MF_NAME \notin EntryNames(ev.old)
                 THEN IF ~ev.same THEN "a failed signing changed the jar"
                      ELSE IF ev.cli THEN IF ev.rc # 0 THEN "" ELSE "a jar without a manifest was signed"
                      ELSE IF ev.what = "MissingManifestError" THEN "" ELSE "a jar without a manifest was signed"
            ELSE IF ev.what # "" \/ ev.rc # 0 THEN "signing failed: " \o ev.what
            ELSE SigningBad(d, dc, sig, doc, ev.old, ev.alias, ev.ext, ev.alg, ev.new)
    [] ev.k = "verify" ->
         LET want == Verdict(s, ev.es, ev.given, ev.name, ev.facts)
             said == IF ev.out # "?" THEN {ev.out} \cap want ELSE {o \in want : (o = "") = (ev.rc = 0)}
             lost == [o \in said |-> Broken(s, ev.es, ev.given, ev.name, o) \ ToSet1(ev.named)]
         IN IF said = {} THEN "verification said " \o (IF ev.out = "?" THEN ToString(ev.rc) ELSE ev.out) \o " must say " \o Show(want)
            ELSE IF \A o \in said : lost[o] # {} THEN "the message does not name " \o Show({Texts(lost[o]) : o \in said})
            ELSE ""
       \* (the specification against itself: symbolic and in bytes)
    [] ev.k = "want" ->
         LET got == [k \in 1..Len(ev.facts) |-> [a \in 1..4 |-> Verdict(s, ev.es, a # 1, ev.names[a], ev.facts[k])]]
         IN IF got = [k \in 1..Len(ev.want) |-> [a \in 1..4 |-> {ev.want[k][a]}]] THEN "" ELSE "MACHINERY the history means " \o Show(ev.want) \o " but the bytes " \o Show(got)
    [] ev.k = "nolist" ->
         LET want == IF MF_NAME \notin EntryNames(ev.es) THEN "MissingManifestError"
                     ELSE IF ~DocIn(s, ContentOf(ev.es, MF_NAME), VERSION).ok THEN "MalformedManifest" ELSE ""
         IN IF ev.out = want THEN "" ELSE "loading the manifest said \"" \o ev.out \o "\" must say \"" \o want \o "\""
    [] ev.k = "entries" ->
         LET dc(a, c) == s.bodies[c].d[a]
             want == EntryErrors(dc, DocIn(s, ContentOf(ev.es, MF_NAME), VERSION), ev.es, ev.strict)
         IN IF ~ev.same THEN "verifying changed the manifest"
            ELSE IF ToSet1(ev.errs) # want THEN "entries reported " \o Show(Texts(ToSet1(ev.errs))) \o " must be " \o Show(Texts(want))
            ELSE ""
    [] ev.k = "sections" ->
         LET d(a, x) == DigestOf(s, a, x)
             mf == DocIn(s, ContentOf(ev.es, MF_NAME), VERSION)
             sf == DocIn(s, ContentOf(ev.es, ev.sf), SIGVERSION)
             want == SectionErrors(d, sf, mf, ev.strict)
         IN IF ~ev.same THEN "verifying changed the manifest"
            ELSE IF ToSet1(ev.errs) # want THEN "sections reported " \o Show(Texts(ToSet1(ev.errs))) \o " must be " \o Show(Texts(want))
            ELSE IF ToSet1(ev.whole) # ManifestErrors(d, sf, mf) THEN "the manifest's errors are not " \o Show(Texts(ManifestErrors(d, sf, mf)))
            ELSE IF ev.wholeok # AnyMatch(d, sf.main, WHOLE, mf.whole) THEN "verdict on the whole manifest"
            ELSE IF ev.mainok # AnyMatch(d, sf.main, MAINATTRS, mf.mainraw) THEN "verdict on the main section"
            ELSE ""
    [] ev.k = "names" ->
         LET wrong == {i \in 1..Len(ev.names) :
               LET n == ev.names[i].n
               IN ev.names[i].skip # Reserved(n) \/ ev.names[i].sf # IsSF(n)
                  \/ ev.names[i].blk # (InMetaInf(n) /\ BlockLike(UpperB(SubSeq(n, Len(META_DIR) + 1, Len(n)))))}
         IN IF wrong = {} THEN "" ELSE "wrongly classified " \o Show({<<Chars(ev.names[i].n), ev.names[i].sf, ev.names[i].blk, ev.names[i].skip>> : i \in wrong})
    [] ev.k = "created" ->
         LET dc(a, c) == s.bodies[c].d[a]
             ig(n) == GlobAny(ev.ignore, n)
         IN CreatedBad(dc, DocIn(s, ev.old, VERSION), ev.algs, ig, ev.es, DocIn(s, ev.mf, VERSION))
    [] ev.k = "mfcli" ->
         LET dc(a, c) == s.bodies[c].d[a]
             want == EntryErrors(dc, DocIn(s, ContentOf(ev.es, MF_NAME), VERSION), ev.es, TRUE)
         IN IF (ev.rc = 0) # (want = {}) THEN "the command ended with " \o ToString(ev.rc) \o " though the errors are " \o Show(Texts(want))
            ELSE IF want \ ToSet1(ev.named) # {} THEN "the message does not name " \o Show(Texts(want \ ToSet1(ev.named)))
            ELSE ""
    [] ev.k = "query" ->
         LET doc == DocIn(s, ContentOf(ev.es, MF_NAME), VERSION)
             want == FoldLeft(LAMBDA a, q : a \o QueryLine(doc, q), <<>>, ev.qs)
         IN IF ev.out = want THEN "" ELSE "query printed " \o Chars(ev.out) \o " must print " \o Chars(want)
TAfter(s, ev) == s
=============================================================================
