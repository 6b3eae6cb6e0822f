---------------------------- MODULE Trace_Report ----------------------------
(* Reports of the real commands. *)
EXTENDS Report, TraceKit

TStart(t) == 0

AtStem(rows, p) == {i \in 1..Len(rows) : rows[i].at = p}
DropExt(p) == IF Len(p) > 5 /\ SubSeq(p, Len(p) - 4, Len(p)) = ".html" THEN SubSeq(p, 1, Len(p) - 5) ELSE p

\* every document exactly once
BagBad(what, exp, got) ==
  IF Len(exp) # Len(got) THEN what \o ": " \o ToString(Len(got)) \o " documents, not " \o ToString(Len(exp))
  ELSE IF \E i \in 1..Len(exp) : Cardinality({j \in 1..Len(exp) : exp[j] = exp[i]}) # Cardinality({j \in 1..Len(got) : got[j] = exp[i]})
  THEN what \o ": no document for " \o
       ToString((CHOOSE i \in 1..Len(exp) : Cardinality({j \in 1..Len(exp) : exp[j] = exp[i]}) # Cardinality({j \in 1..Len(got) : got[j] = exp[i]})))
  ELSE ""

JsonBad(ds, rows, o) ==
  LET exp == [i \in 1..Len(ds) |-> JsonDoc(ds[i].root, o, TRUE)]
  IN IF \E i \in 1..Len(rows) : rows[i].bad # "" THEN "json: not parseable " \o ToString({rows[i].bad : i \in 1..Len(rows)})
     ELSE LET b == BagBad("json", exp, [i \in 1..Len(rows) |-> rows[i].doc])
          IN IF b # "" THEN b
             ELSE IF \E i \in 1..Len(ds) : ds[i].plain /\ \A j \in AtStem(rows, Stem(ds[i])) : rows[j].doc # exp[i]
                  THEN "json: nothing (or another document) at a document's place" ELSE ""
TextBad(ds, rows, o) ==
  LET exp == [i \in 1..Len(ds) |-> TextDoc(ds[i].root, o, 0)]
      b == BagBad("text", exp, [i \in 1..Len(rows) |-> rows[i].text])
  IN IF b # "" THEN b
     ELSE IF \E i \in 1..Len(ds) : ds[i].plain /\ \A j \in AtStem(rows, Stem(ds[i])) : rows[j].text # exp[i]
          THEN "text: nothing (or another document) at a document's place" ELSE ""

(* the pages: read from the top one, following the links *)
\* what a page and those it leads to come to: [bad, seen (the stems)]
RECURSIVE Read(_, _, _, _, _, _)
Read(root, at, anc, pages, docs, o) ==
  LET is == AtStem(pages, at)
  IN IF Cardinality(is) # 1 THEN [bad |-> "page: a link leads to " \o at, seen |-> {}]
     ELSE
     LET p == pages[CHOOSE i \in is : TRUE]
         want == Top(root)
         \* which node of the page stands for the i-th change at its top
         Cands(i) == IF Pos(want[i]) THEN {j \in 1..Len(p.kids) : p.kids[j].cls = (IF Reported(want[i]) THEN <<"SquashedChange", OwnDoc[want[i].cls]>> ELSE <<want[i].cls>>)
                                                                 /\ PageBad(want[i], p.kids[j]) = "" /\ p.kids[j].under = want[i].h.lb}
                     ELSE {j \in {i} : j <= Len(p.kids) /\ PageBad(want[i], p.kids[j]) = ""}
         cands == TLCEval([i \in 1..Len(want) |-> Cands(i)])
         lost == {i \in 1..Len(want) : cands[i] = {}}
         \* entries that look the same can be told apart by what their links lead to only
         subs == {i \in 1..Len(want) : Reported(want[i])}
         here == Append(anc, [t |-> DocOf[root.cls], at |-> at])
         read == TLCEval([i \in subs |-> {r \in {Read(want[i].kids[1], DropExt(p.kids[j].link[1]), here, pages, docs, o) : j \in cands[i]} : TRUE}])
         ok == [i \in subs |-> {r \in read[i] : r.bad = ""}]
         bad ==
           IF p.bad # <<>> THEN "page: not well formed " \o ToString(p.bad)
           ELSE IF p.h1 # Title(root) \/ p.title # Title(root) THEN "page: title " \o p.h1 \o " / " \o p.title
           ELSE IF p.links # <<>> THEN "page: " \o ToString(p.links)
           ELSE IF p.crumbs # [i \in 1..Len(anc) |-> <<anc[i].t, anc[i].at \o ".html">>] THEN "page: breadcrumbs " \o ToString(p.crumbs)
           ELSE IF Len(p.kids) # Len(want) THEN "page: " \o ToString(Len(p.kids)) \o " changes on top, not " \o ToString(Len(want))
           ELSE IF lost # {} THEN (LET i == CHOOSE i \in lost : TRUE
                                       same == {j \in 1..Len(p.kids) : p.kids[j].text = Head_(want[i])}
                                   IN "page: " \o want[i].cls \o " " \o want[i].desc \o " isn't shown: "
                                      \o (IF same = {} THEN "no such text" ELSE PageBad(want[i], p.kids[CHOOSE j \in same : TRUE])))
           ELSE IF \E i \in subs : ok[i] = {} THEN LET i == CHOOSE i \in subs : ok[i] = {} IN
                (IF read[i] = {} THEN "page: no link" ELSE (CHOOSE r \in read[i] : TRUE).bad)
           ELSE IF docs # <<>> /\ \A j \in AtStem(docs, at) : docs[j].doc # JsonDoc(root, o, TRUE) THEN "page: another JSON document beside " \o at
           ELSE ""
     IN [bad |-> bad, seen |-> {at} \cup UNION {IF ok[i] = {} THEN {} ELSE (CHOOSE r \in ok[i] : TRUE).seen : i \in subs}]

PagesBad(ds, pages, docs, o, media) ==
  IF Len(pages) # Len(ds) THEN "page: " \o ToString(Len(pages)) \o " pages, not " \o ToString(Len(ds))
  ELSE LET r == Read(ds[1].root, Stem(ds[1]), <<>>, pages, docs, o)
       IN IF r.bad # "" THEN r.bad
          ELSE IF \E i \in 1..Len(pages) : MediaBad(pages[i], media) # ""
               THEN MediaBad(pages[CHOOSE i \in 1..Len(pages) : MediaBad(pages[i], media) # ""], media)
          ELSE IF \E i \in 1..Len(ds) : ds[i].plain /\ AtStem(pages, Stem(ds[i])) = {} THEN "page: nothing at a document's place"
          ELSE IF \E i \in 1..Len(ds) : ~\E j \in 1..Len(pages) : pages[j].h1 = Title(ds[i].root) THEN "page: no page for a document"
          ELSE IF r.seen # {pages[i].at : i \in 1..Len(pages)} THEN "page: not every page is linked to" ELSE ""

Has(ev, f) == f \in Range_(ev.formats)
TBad(s, ev) ==
  IF ev.exc # "" THEN "raised " \o ev.exc
  ELSE LET ds == TLCEval(Docs(ev.facts, <<>>))
           j == IF Has(ev, "json") THEN JsonBad(ds, ev.docs.json, ev.o) ELSE IF ev.docs.json # <<>> THEN "json: not asked for" ELSE ""
           t == IF Has(ev, "text") \/ Has(ev, "txt") THEN TextBad(ds, ev.docs.text, ev.o) ELSE IF ev.docs.text # <<>> THEN "text: not asked for" ELSE ""
           h == IF Has(ev, "html") \/ Has(ev, "htm") THEN PagesBad(ds, ev.docs.html, ev.docs.json, ev.o, ev.media) ELSE IF ev.docs.html # <<>> THEN "page: not asked for" ELSE ""
       IN IF ev.stray # <<>> THEN "files outside of the report directory: " \o ToString(ev.stray)
          ELSE IF ev.extra # <<>> THEN "unexpected files: " \o ToString(ev.extra)
          ELSE IF ev.data THEN "no style sheets and scripts were copied"
          ELSE IF j # "" THEN j ELSE IF t # "" THEN t ELSE IF h # "" THEN h
          ELSE IF ev.rc # Exit(ev.facts) THEN "exit status " \o ToString(ev.rc)
          ELSE IF ev.outk = "quiet" THEN (IF ev.out.text # "" THEN "output: not asked for" ELSE "")
          ELSE IF ev.outk = "json" THEN (IF ev.out.bad # "" THEN "output: not parseable " \o ev.out.bad
                                         ELSE IF ev.out.doc # JsonDoc(ev.facts, ev.o, TRUE) THEN "output: another document" ELSE "")
          ELSE IF ev.out.text # TextDoc(ev.facts, ev.o, 0) THEN "output: another text" ELSE ""
TAfter(s, ev) == s
=============================================================================
