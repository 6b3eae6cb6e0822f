---------------------------- MODULE MC_Manifest ----------------------------
(***************************************************************************)
(* A writer that puts down a manifest byte by byte, dividing a value       *)
(* wherever it likes (and at the latest when the line is full), and a      *)
(* reader that takes the finished text.  What is read is what was written, *)
(* for every line end and every way of dividing, and also when the last    *)
(* line end is missing.                                                    *)
(***************************************************************************)
EXTENDS Manifest, TLC, Json, IOUtils
CONSTANTS MaxLen, Width, ScenLen, AnyDoc

\* a letter, a space, a colon, and the two bytes of one character
\* (AnyDoc: a writer that refuses nothing, and so also puts down a line end)
Alphabet == {97, SP, COLON, 195, 188} \cup (IF AnyDoc THEN {LF} ELSE {})
Values(n) == BoundedSeq(Alphabet, n)
K == <<75>>
N == NAME
Subs(n) == {<<>>} \cup {<< <<<<N, <<97>>>>, <<K, v>>>> >> : v \in Values(n)}
           \cup {<< <<<<N, <<97>>>>, <<K, <<>>>>>>, <<<<N, <<98>>>>, <<K, <<97>>>>>> >>}
Mains(n) == {<<<<VERSION, ONE>>>>} \cup {<<<<VERSION, ONE>>, <<K, v>>>> : v \in Values(n)}
NLs == {<<CR, LF>>, <<LF>>, <<CR>>}

VARIABLES nl, doc, out, w, si, pi, bi, col, done
vars == <<nl, doc, out, w, si, pi, bi, col, done>>

\* the sections of a document, and the bytes of a pair
Pair(p) == p[1] \o <<COLON, SP>> \o p[2]
\* the key, the colon and the space stay on one line
Fixed(p) == IF p[1] = K THEN Len(p[1]) + 2 ELSE Len(Pair(p))

Init == /\ nl \in NLs
        /\ doc \in {<<m>> \o s : m \in Mains(MaxLen - 1), s \in Subs(MaxLen)}
        /\ w \in {Width, Width + 1}
        /\ out = <<>> /\ si = 1 /\ pi = 1 /\ bi = 0 /\ col = 0 /\ done = FALSE

InPair == si <= Len(doc) /\ pi <= Len(doc[si])
Put == /\ InPair
       /\ LET p == doc[si][pi]
              b == Pair(p)
          IN /\ bi < Len(b)
             /\ (col < w \/ bi < Fixed(p))
             /\ out' = Append(out, b[bi + 1])
             /\ bi' = bi + 1 /\ col' = col + 1
       /\ UNCHANGED <<nl, doc, w, si, pi, done>>
Fold == /\ InPair
        /\ LET p == doc[si][pi] IN bi >= Fixed(p) /\ bi < Len(Pair(p)) /\ col > 1 /\ p[1] = K
        /\ out' = out \o nl \o <<SP>>
        /\ col' = 1
        /\ UNCHANGED <<nl, doc, w, si, pi, bi, done>>
EndPair == /\ InPair
           /\ bi = Len(Pair(doc[si][pi]))
           /\ out' = out \o nl
           /\ pi' = pi + 1 /\ bi' = 0 /\ col' = 0
           /\ UNCHANGED <<nl, doc, w, si, done>>
EndSection == /\ si <= Len(doc) /\ pi > Len(doc[si])
              /\ out' = out \o nl
              /\ si' = si + 1 /\ pi' = 1
              /\ UNCHANGED <<nl, doc, w, bi, col, done>>
Finish == /\ si > Len(doc) /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<nl, doc, out, w, si, pi, bi, col>>
Next == Put \/ Fold \/ EndPair \/ EndSection \/ Finish
\* every behaviour writes the document: nothing gets stuck before the end
Live == done \/ ENABLED Next

Want == [ok |-> TRUE, main |-> Attrs(doc[1]),
         subs |-> {<<Value(Attrs(doc[i]), NAME), Attrs(doc[i])>> : i \in 2..Len(doc)}]
ReadsBack == done => /\ Read(out, VERSION) = Want
                     \* without the last line ends too
                     /\ Read(SubSeq(out, 1, Len(out) - Len(nl)), VERSION) = Want
                     /\ Read(SubSeq(out, 1, Len(out) - 2 * Len(nl)), VERSION) = Want
\* only what a text can hold is put down
Refusing == Expressible([main |-> Attrs(doc[1]), subs |-> {<<Value(Attrs(doc[i]), NAME), Attrs(doc[i])>> : i \in 2..Len(doc)}])
\* while it is being written, sections already closed are final
Final == LET r == ReadSections(out)
         IN (si > 1 /\ si <= Len(doc) /\ pi = 1 /\ bi = 0) =>
              (~r.bad /\ \A i \in 1..(si - 1) : r.secs[i] = doc[i])

\* scenarios: texts with every division of one short value
RECURSIVE Cuts(_)
Cuts(v) == IF v = <<>> THEN {<<>>} ELSE IF Len(v) = 1 THEN {v}
           ELSE {<<v[1]>> \o x : x \in Cuts(Tail(v))} \cup {<<v[1], -1>> \o x : x \in Cuts(Tail(v))}
Spread(v, e) == FoldLeft(LAMBDA a, c : IF c = -1 THEN a \o e \o <<SP>> ELSE Append(a, c), <<>>, v)
\* valid UTF-8 only: the two bytes come together
Valid(v) == \A i \in 1..Len(v) : (v[i] = 195 => i < Len(v) /\ v[i + 1] = 188) /\ (v[i] = 188 => i > 1 /\ v[i - 1] = 195)
Texts == {LET h == VERSION \o <<COLON, SP>> \o ONE \o e
              n == NAME \o <<COLON, SP, 97>> \o e
              k == K \o <<COLON, SP>> \o Spread(v, e) \o e
          IN IF at = 1 THEN h \o k \o e \o n ELSE IF at = 2 THEN h \o e \o n \o k \o e ELSE h \o e \o n \o k
          : e \in NLs, v \in UNION {Cuts(x) : x \in {y \in Values(ScenLen) : Valid(y)}}, at \in 1..3}
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[b |-> t] : t \in Texts}))
=============================================================================
