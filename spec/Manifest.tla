------------------------------ MODULE Manifest ------------------------------
(***************************************************************************)
(* The text of a manifest as bytes, and what it denotes.                   *)
(*                                                                         *)
(* A manifest is [main |-> attributes, subs |-> set of <<name, attributes>>*)
(* ], attributes being a set of <<key, value>> pairs of bytes (UTF-8).     *)
(* Reading works line by line: a section is a run of non-empty lines, a    *)
(* line starting with a space continues the value before it (byte by byte, *)
(* so that a character may be divided), and every other line is a key, a   *)
(* colon, a space and a value.                                             *)
(***************************************************************************)
EXTENDS Bytes, Text, FiniteSets

CR == 13
LF == 10
SP == 32
COLON == 58

\* the line ends: CR LF, LF, or CR only
SplitLines(b) ==
  LET f == FoldLeft(LAMBDA a, c :
             IF c = LF THEN IF a.cr THEN [a EXCEPT !.cr = FALSE]     \* second half of CR LF
                            ELSE [ls |-> Append(a.ls, a.w), w |-> <<>>, cr |-> FALSE]
             ELSE IF c = CR THEN [ls |-> Append(a.ls, a.w), w |-> <<>>, cr |-> TRUE]
             ELSE [ls |-> a.ls, w |-> Append(a.w, c), cr |-> FALSE],
             [ls |-> <<>>, w |-> <<>>, cr |-> FALSE], b)
  IN IF f.w = <<>> THEN f.ls ELSE Append(f.ls, f.w)

\* every line with the line end that closed it ("" for none)
Ends(b) == {IF b[i] = LF THEN IF i > 1 /\ b[i - 1] = CR THEN <<CR, LF>> ELSE <<LF>>
            ELSE IF i < Len(b) /\ b[i + 1] = LF THEN <<CR, LF>> ELSE <<CR>> : i \in {j \in 1..Len(b) : b[j] \in {CR, LF}}}

(* one line at a time: secs complete, cur the section being read *)
Reading0 == [secs |-> <<>>, cur |-> <<>>, bad |-> FALSE]
ReadLine(r, line) ==
  LET clean == SelectSeq(line, LAMBDA c : c # 0)
      colon == IndexFrom(clean, COLON, 1)
      rest == SubSeq(clean, colon + 1, Len(clean))
  IN IF r.bad THEN r
     ELSE IF clean = <<>> THEN IF r.cur = <<>> THEN r ELSE [r EXCEPT !.secs = Append(@, r.cur), !.cur = <<>>]
     ELSE IF clean[1] = SP THEN IF r.cur = <<>> THEN [r EXCEPT !.bad = TRUE]
                                ELSE [r EXCEPT !.cur[Len(r.cur)] = <<@[1], @[2] \o Tail(clean)>>]
     ELSE IF colon = 0 \/ (rest # <<>> /\ rest[1] # SP) THEN [r EXCEPT !.bad = TRUE]
     ELSE [r EXCEPT !.cur = Append(@, <<SubSeq(clean, 1, colon - 1), IF rest = <<>> THEN <<>> ELSE Tail(rest)>>)]

\* the last of several attributes of one key counts
Attrs(ps) == {ps[i] : i \in {j \in 1..Len(ps) : \A k \in (j + 1)..Len(ps) : ps[k][1] # ps[j][1]}}
HasKey(as, key) == \E a \in as : a[1] = key
Value(as, key) == (CHOOSE a \in as : a[1] = key)[2]

NAME == Lit("Name")
VERSION == Lit("Manifest-Version")
SIGVERSION == Lit("Signature-Version")
ONE == Lit("1.0")

Malformed == [ok |-> FALSE, main |-> {}, subs |-> {}]
\* of several sections of one name the last counts; primary: the version
\* key of the main section, 1.0 when it is not given
Denotes(secs, primary) ==
  LET main == IF secs = <<>> THEN {} ELSE Attrs(secs[1])
      subs == [i \in 1..(Len(secs) - 1) |-> Attrs(secs[i + 1])]
      long == \E i \in 1..Len(secs) : \E j \in 1..Len(secs[i]) : Len(secs[i][j][1]) > 68
  IN IF long \/ \E i \in 1..Len(subs) : ~HasKey(subs[i], NAME) THEN Malformed
     ELSE [ok |-> TRUE,
           main |-> IF HasKey(main, primary) THEN main ELSE main \cup {<<primary, ONE>>},
           subs |-> {<<Value(subs[i], NAME), subs[i]>> :
                       i \in {j \in 1..Len(subs) : \A k \in (j + 1)..Len(subs) : Value(subs[k], NAME) # Value(subs[j], NAME)}}]

ReadSections(b) ==
  LET r == FoldLeft(ReadLine, Reading0, SplitLines(b))
  IN IF r.bad THEN [bad |-> TRUE, secs |-> <<>>]
     ELSE [bad |-> FALSE, secs |-> IF r.cur = <<>> THEN r.secs ELSE Append(r.secs, r.cur)]

Read(b, primary) == LET r == ReadSections(b) IN IF r.bad THEN Malformed ELSE Denotes(r.secs, primary)

(* the text cut into lines with their line ends, and into sections with    *)
(* everything up to and including the empty line that closes them          *)
LineEnd(b, i) == \/ b[i] = LF \/ (b[i] = CR /\ (i = Len(b) \/ b[i + 1] # LF))
RawLines(b) ==
  LET f == FoldLeft(LAMBDA a, i : IF LineEnd(b, i) \/ i = Len(b) THEN [at |-> i, ls |-> Append(a.ls, SubSeq(b, a.at + 1, i))] ELSE a,
                    [at |-> 0, ls |-> <<>>], [i \in 1..Len(b) |-> i])
  IN f.ls
Bare(line) == SelectSeq(line, LAMBDA c : c \notin {0, CR, LF})
RawSections(b) ==
  LET f == FoldLeft(LAMBDA a, x : IF Bare(x) # <<>> THEN [a EXCEPT !.cur = @ \o x]
                                  ELSE IF a.cur = <<>> THEN a ELSE [secs |-> Append(a.secs, a.cur \o x), cur |-> <<>>],
                    [secs |-> <<>>, cur |-> <<>>], RawLines(b))
  IN IF f.cur = <<>> THEN f.secs ELSE Append(f.secs, f.cur)

\* what a text can hold: a key of 1 to 68 bytes without a colon, not beginning
\* with a space, and nowhere a line end or a NUL.  Anything else is refused
MaxKey == 68
FitKey(k) == Len(k) \in 1..MaxKey /\ k[1] # SP /\ {k[i] : i \in 1..Len(k)} \cap {0, LF, CR, COLON} = {}
FitValue(v) == {v[i] : i \in 1..Len(v)} \cap {0, LF, CR} = {}
Expressible(d) == LET as == d.main \cup UNION {s[2] : s \in d.subs} IN \A a \in as : FitKey(a[1]) /\ FitValue(a[2])

\* what a written manifest must look like: lines of at most 72 bytes, one
\* kind of line end throughout, and every section closed by an empty line
MaxLine == 72
WellWritten(b, nl) ==
  /\ \A i \in 1..Len(SplitLines(b)) : Len(SplitLines(b)[i]) <= MaxLine
  /\ Ends(b) \subseteq {nl}
  /\ EndsWith(b, nl \o nl)
=============================================================================
