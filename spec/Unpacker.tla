------------------------------ MODULE Unpacker ------------------------------
(***************************************************************************)
(* The binary reader as a cursor over a byte sequence.                     *)
(*                                                                         *)
(* State: kind ("buffer" | "stream"), data, pos (bytes consumed), open.    *)
(* Each public call is one action; a call whose bytes are not all there    *)
(* raises and reports (wanted, present).  A short request leaves a buffer  *)
(* untouched; on a stream the bytes it asked the stream for are gone.      *)
(*                                                                         *)
(* A format is a sequence of codes; each code consumes its width and       *)
(* yields one value (big-endian).                                          *)
(***************************************************************************)
EXTENDS Bytes

Width(c) == CASE c[1] = "B" -> 1 [] c[1] = "b" -> 1
              [] c[1] = "H" -> 2 [] c[1] = "h" -> 2
              [] c[1] = "I" -> 4 [] c[1] = "i" -> 4
              [] c[1] = "Q" -> 8 [] c[1] = "q" -> 8
              [] c[1] = "s" -> c[2]            \* c[2] raw bytes
              [] c[1] = "x" -> c[2]            \* padding: consumed, no value

Yields(c) == c[1] # "x"

Value(c, bs) == CASE c[1] \in {"B", "H", "I", "Q"} -> UnsignedInt(bs)
                  [] c[1] \in {"b", "h", "i", "q"} -> SignedInt(bs)
                  [] c[1] = "s" -> <<"s", bs>>

FmtSize(fmt) == FoldLeft(LAMBDA a, c : a + Width(c), 0, fmt)

RECURSIVE DecodeFmt(_, _)
DecodeFmt(fmt, bs) ==
  IF fmt = <<>> THEN <<>>
  ELSE LET c == Head(fmt)
           w == Width(c)
       IN (IF Yields(c) THEN <<Value(c, SubSeq(bs, 1, w))>> ELSE <<>>)
          \o DecodeFmt(Tail(fmt), SubSeq(bs, w + 1, Len(bs)))

NewReader(kind, data, pos) == [kind |-> kind, data |-> data, pos |-> pos, open |-> TRUE]

Avail(r) == IF r.open THEN Len(r.data) - r.pos ELSE 0

\* outcomes
Ok(v) == <<"ok", v>>
Short(wanted, present) == <<"short", wanted, present>>
ClosedErr == <<"closed">>
NoCount == <<"nocount">>

\* take n bytes: the one primitive every call is made of
Take(r, n) ==
  IF ~r.open THEN [r |-> r, ok |-> FALSE, out |-> IF n = 0 THEN ClosedErr ELSE Short(n, 0), bytes |-> <<>>]
  ELSE IF Avail(r) < n
  THEN [r |-> IF r.kind = "stream" THEN [r EXCEPT !.pos = Len(r.data)] ELSE r,
        ok |-> FALSE, out |-> Short(n, Avail(r)), bytes |-> <<>>]
  ELSE [r |-> [r EXCEPT !.pos = @ + n], ok |-> TRUE, out |-> Ok(<<>>),
        bytes |-> Slice(r.data, r.pos, n)]

Read(r, n) == LET t == Take(r, n)
              IN [r |-> t.r, out |-> IF t.ok THEN Ok(<<"s", t.bytes>>) ELSE t.out]

UnpackFmt(r, fmt) ==
  LET t == Take(r, FmtSize(fmt))
  IN [r |-> t.r, out |-> IF t.ok THEN Ok(DecodeFmt(fmt, t.bytes)) ELSE t.out]

\* k consecutive items; the items before a short one have been consumed
Items(r, fmt, k) ==
  LET size  == FmtSize(fmt)
      whole == IF size = 0 THEN k ELSE Avail(r) \div size
  IN IF whole >= k
     THEN [r |-> [r EXCEPT !.pos = @ + k * size],
           out |-> Ok([i \in 1..k |-> DecodeFmt(fmt, Slice(r.data, r.pos + (i - 1) * size, size))])]
     ELSE [r |-> [r EXCEPT !.pos = IF r.kind = "stream" THEN Len(r.data) ELSE @ + whole * size],
           out |-> Short(size, Avail(r) - whole * size)]

\* a counted array: a u2 count, then that many items
Array(r, fmt) ==
  LET c == Take(r, 2)
  IN IF ~c.ok THEN [r |-> c.r, out |-> c.out]
     ELSE Items(c.r, fmt, Nat2(c.bytes, 0))

\* only the first k items of a counted array are asked for
ArrayPrefix(r, fmt, k) ==
  LET c == Take(r, 2)
      n == IF c.ok THEN Nat2(c.bytes, 0) ELSE 0
  IN IF ~c.ok THEN [r |-> c.r, out |-> c.out]
     ELSE Items(c.r, fmt, IF n < k THEN n ELSE k)

Close(r) == [r |-> [r EXCEPT !.open = FALSE], out |-> Ok("closed")]

\* a block that reads n bytes and leaves: the reader is closed and what the
\* read answered, be it an error, is what the block ends with
Within(r, n) == LET d == Read(r, n) IN [r |-> [d.r EXCEPT !.open = FALSE], out |-> d.out]

Do(r, op) ==
  CASE op[1] = "read"    -> Read(r, op[2])
    [] op[1] = "unpack"  -> UnpackFmt(r, op[2])
    [] op[1] = "struct"  -> UnpackFmt(r, op[2])
    [] op[1] = "array"   -> Array(r, op[2])
    [] op[1] = "sarray"  -> Array(r, op[2])
    [] op[1] = "objects" -> Array(r, op[2])
    [] op[1] = "close"   -> Close(r)
    [] op[1] = "exit"    -> Close(r)
    [] op[1] = "within"  -> Within(r, op[2])
=============================================================================
