-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of code points, with literals written as TLA+         *)
(* strings of printable ASCII.                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdTab == [ch \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch]
Lit(s) == [i \in 1..Len(s) |-> OrdTab[SubSeq(s, i, i)]]

RECURSIVE JoinText(_, _)
JoinText(ts, sep) == IF ts = <<>> THEN <<>>
                     ELSE IF Len(ts) = 1 THEN ts[1]
                     ELSE ts[1] \o sep \o JoinText(Tail(ts), sep)

HasText(t, sub) == \E i \in 0..(Len(t) - Len(sub)) : SubSeq(t, i + 1, i + Len(sub)) = sub

StartsWith(t, pre) == Len(t) >= Len(pre) /\ SubSeq(t, 1, Len(pre)) = pre
EndsWith(t, suf) == Len(t) >= Len(suf) /\ SubSeq(t, Len(t) - Len(suf) + 1, Len(t)) = suf

Replace(t, a, b) == [i \in 1..Len(t) |-> IF t[i] = a THEN b ELSE t[i]]

\* position of the first occurrence of c at or after i (0 if none)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE IndexFrom(t, c, i + 1)

\* the non-empty pieces between separators
SplitWords(t, sep) ==
  LET f == FoldLeft(LAMBDA a, c :
                      IF c = sep THEN [ws |-> IF a.w = <<>> THEN a.ws ELSE Append(a.ws, a.w), w |-> <<>>]
                      ELSE [a EXCEPT !.w = Append(@, c)],
                    [ws |-> <<>>, w |-> <<>>], t)
  IN IF f.w = <<>> THEN f.ws ELSE Append(f.ws, f.w)

\* all pieces between separators, empty ones included
SplitAll(t, sep) ==
  LET f == FoldLeft(LAMBDA a, c :
                      IF c = sep THEN [ws |-> Append(a.ws, a.w), w |-> <<>>]
                      ELSE [a EXCEPT !.w = Append(@, c)],
                    [ws |-> <<>>, w |-> <<>>], t)
  IN Append(f.ws, f.w)

\* decimal rendering
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecN(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o DecN(-n) ELSE DecN(n)

(* shell patterns: *, ? and [set] / [!set]; everything else literal *)
\* a-b is a range unless the dash comes first or last; it holds no dash itself
RECURSIVE InSet(_, _)
InSet(set, c) ==
  IF set = <<>> THEN FALSE
  ELSE IF Len(set) >= 3 /\ set[2] = 45 THEN (set[1] <= c /\ c <= set[3]) \/ InSet(SubSeq(set, 4, Len(set)), c)
  ELSE set[1] = c \/ InSet(Tail(set), c)

RECURSIVE Glob(_, _)
Glob(p, t) ==
  IF p = <<>> THEN t = <<>>
  ELSE IF Head(p) = 42 THEN Glob(Tail(p), t) \/ (t # <<>> /\ Glob(p, Tail(t)))
  ELSE IF t = <<>> THEN FALSE
  ELSE IF Head(p) = 63 THEN Glob(Tail(p), Tail(t))
  ELSE IF Head(p) = 91 /\ IndexFrom(p, 93, IF Len(p) > 1 /\ p[2] = 33 THEN 4 ELSE 3) # 0
  THEN LET neg  == p[2] = 33
           from == IF neg THEN 3 ELSE 2
           to   == IndexFrom(p, 93, IF neg THEN 4 ELSE 3)
           set  == SubSeq(p, from, to - 1)
       IN (InSet(set, Head(t)) # neg) /\ Glob(SubSeq(p, to + 1, Len(p)), Tail(t))
  ELSE Head(p) = Head(t) /\ Glob(Tail(p), Tail(t))

GlobAny(ps, t) == \E i \in 1..Len(ps) : Glob(ps[i], t)

ToSetOf(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

(* first clause whose expected and seen values differ, "" if none *)
FirstDiff(cs) ==
  LET bad == {i \in 1..Len(cs) : cs[i][2] # cs[i][3]}
  IN IF bad = {} THEN <<>>
     ELSE cs[CHOOSE i \in bad : \A j \in bad : i <= j]
=============================================================================
