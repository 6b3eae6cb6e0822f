-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Byte sequences, and integers too wide for TLC's 32 bits.  A wide        *)
(* integer is <<"i", neg, mag>>: neg is 0 or 1, mag its magnitude as       *)
(* base-256 digits, most significant first, without leading zeros.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Byte == 0..255

\* n bytes of s after the first p (p counted from 0)
Slice(s, p, n) == SubSeq(s, p + 1, p + n)

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ Head(s) = 0 THEN StripZeros(Tail(s)) ELSE s

AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

\* two's complement negation of a byte sequence, as a magnitude
\* (the last non-zero byte is negated, those before it complemented)
NegateBytes(s) ==
  LET last == CHOOSE i \in 1..Len(s) : s[i] # 0 /\ \A j \in (i+1)..Len(s) : s[j] = 0
  IN [i \in 1..Len(s) |-> IF i < last THEN 255 - s[i]
                          ELSE IF i = last THEN 256 - s[i] ELSE 0]

UnsignedInt(s) == <<"i", 0, StripZeros(s)>>

SignedInt(s) == IF s # <<>> /\ s[1] >= 128 /\ ~AllZero(s)
                THEN <<"i", 1, StripZeros(NegateBytes(s))>>
                ELSE <<"i", 0, StripZeros(s)>>

\* small natural numbers (at most four bytes with the top bit clear)
Nat1(s, p) == s[p + 1]
Nat2(s, p) == s[p + 1] * 256 + s[p + 2]
Signed1(s, p) == IF s[p + 1] >= 128 THEN s[p + 1] - 256 ELSE s[p + 1]
Signed2(s, p) == IF s[p + 1] >= 128 THEN Nat2(s, p) - 65536 ELSE Nat2(s, p)
\* a four byte length: Top(s,p) tells whether it exceeds 2^30
Nat4(s, p) == ((s[p + 1] * 256 + s[p + 2]) * 256 + s[p + 3]) * 256 + s[p + 4]
Big4(s, p) == s[p + 1] >= 64
Signed4(s, p) == IF s[p + 1] >= 128
                 THEN -1 - (((255 - s[p + 1]) * 256 + (255 - s[p + 2])) * 65536
                            + (255 - s[p + 3]) * 256 + (255 - s[p + 4]))
                 ELSE Nat4(s, p)

\* a native integer written in the wide form
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Append(Digits(n \div 256), n % 256)
WideInt(n) == IF n < 0 THEN <<"i", 1, Digits(-n)>> ELSE <<"i", 0, Digits(n)>>

FlattenSeqs(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================
