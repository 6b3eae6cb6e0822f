---------------------------- MODULE MC_Unpacker ----------------------------
(* A buffer and a stream over the same data are driven by the same calls;  *)
(* "got" collects the raw bytes every successful call accounts for.        *)
EXTENDS Unpacker, FiniteSets, TLC, Json, IOUtils
CONSTANTS Bs, MaxLen, MaxOps

Datas == UNION {[1..n -> Bs] : n \in 0..MaxLen}
Fmts == { <<<<"B">>>>, <<<<"h">>>>, <<<<"b">>, <<"B">>>> }
Ops == {<<"read", n>> : n \in 0..3}
       \cup {<<"unpack", f>> : f \in Fmts} \cup {<<"array", f>> : f \in Fmts}
       \cup {<<"close">>, <<"within", 3>>}

VARIABLES buf, str, n, got, same, last, drained

vars == <<buf, str, n, got, same, last, drained>>

Init == \E d \in Datas : /\ buf = NewReader("buffer", d, 0)
                         /\ str = NewReader("stream", d, 0)
                         /\ n = 0 /\ got = 0 /\ same = TRUE /\ last = <<"init">> /\ drained = FALSE

Next == /\ n < MaxOps
        /\ \E op \in Ops :
             LET b == Do(buf, op)
                 s == Do(str, op)
             IN /\ buf' = b.r /\ str' = s.r /\ n' = n + 1
                /\ same' = (same /\ (drained \/ b.out = s.out))
                /\ drained' = (drained \/ s.out[1] = "short")
                /\ got' = got + (b.r.pos - buf.pos)
                /\ last' = b.out

\* both kinds agree until a short request has drained the stream
Agree == same
\* the cursor only moves forward and never past the end
InRange == buf.pos \in 0..Len(buf.data) /\ str.pos \in 0..Len(str.data)
\* a failed call consumed nothing from a buffer unless it was an array that
\* had already delivered whole items
NothingLost == got = buf.pos
Forward == [][buf'.pos >= buf.pos /\ str'.pos >= str.pos]_vars
ShortKeeps == [][(last'[1] = "short" /\ last'[2] # 0 /\ buf.pos # buf'.pos)
                 => \E op \in Ops : op[1] = "array" /\ Do(buf, op).out = last']_vars
ClosedStays == [][~buf.open => (~buf'.open /\ last'[1] # "ok") \/ last'[2] = "closed"]_vars

\* scenario generation: every data and every op sequence of length 2
Scen == {[data |-> d, ops |-> <<o1, o2, o3>>] :
            d \in {x \in Datas : TRUE}, o1 \in Ops, o2 \in Ops, o3 \in {<<"read", 1>>}}
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq(Scen))
=============================================================================
