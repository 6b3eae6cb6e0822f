------------------------------ MODULE MC_Disasm ------------------------------
(***************************************************************************)
(* A code array as a sequence of symbolic instructions, and the cursor     *)
(* that walks it.  Whatever the sequence, the cursor stops exactly at the  *)
(* instruction boundaries, sees each instruction once, and ends exactly at *)
(* the end of the code.                                                    *)
(***************************************************************************)
EXTENDS Disasm, FiniteSets, Json, IOUtils
CONSTANTS MaxIns, MaxPad, ScenIns

S4(n) == IF n >= 0 THEN <<0, 0, (n \div 256) % 256, n % 256>>
         ELSE <<255, 255, 255 - (((-n - 1) \div 256) % 256), 255 - ((-n - 1) % 256)>>

(* symbolic instructions: <<opcode, operand bytes>>, <<170, default, low, targets>>,
   <<171, default, <<key, target>> pairs>> *)
Ins == { <<0, <<>>>>, <<16, <<133>>>>, <<17, <<255, 2>>>>, <<18, <<200>>>>, <<19, <<1, 44>>>>,
         <<21, <<255>>>>, <<132, <<250, 250>>>>, <<153, <<255, 253>>>>, <<167, <<128, 0>>>>, <<169, <<130>>>>,
         <<177, <<>>>>, <<185, <<0, 9, 3, 0>>>>, <<186, <<1, 0, 0, 0>>>>, <<188, <<10>>>>, <<197, <<2, 1, 3>>>>,
         <<196, <<21, 255, 255>>>>, <<196, <<132, 1, 0, 255, 0>>>>, <<200, <<255, 255, 0, 0>>>>, <<201, <<0, 1, 0, 0>>>>,
         <<170, -8, -1, <<4, -4, 300>>>>, <<170, 1, 7, <<2>>>>,
         <<171, 12, <<>>>>, <<171, -12, <<<<-5, 4>>, <<300, -4>>>>>> }

PadTo4(c) == [i \in 1..(Align(Len(c)) - Len(c)) |-> 0]
EncIns(c, x) ==
  IF x[1] = 170
  THEN LET h == c \o <<170>>
       IN h \o PadTo4(h) \o S4(x[2]) \o S4(x[3]) \o S4(x[3] + Len(x[4]) - 1)
          \o FlattenSeqs([i \in 1..Len(x[4]) |-> S4(x[4][i])])
  ELSE IF x[1] = 171
  THEN LET h == c \o <<171>>
       IN h \o PadTo4(h) \o S4(x[2]) \o S4(Len(x[3]))
          \o FlattenSeqs([i \in 1..Len(x[3]) |-> S4(x[3][i][1]) \o S4(x[3][i][2])])
  ELSE c \o <<x[1]>> \o x[2]
EncCode(xs) == FoldLeft(EncIns, <<>>, xs)
Starts(xs) == [i \in 1..Len(xs) |-> Len(EncCode(SubSeq(xs, 1, i - 1)))]

Meaning(x) ==
  IF x[1] = 170 THEN <<WideInt(x[2]), WideInt(x[3]), WideInt(x[3] + Len(x[4]) - 1),
                       [i \in 1..Len(x[4]) |-> WideInt(x[4][i])]>>
  ELSE IF x[1] = 171 THEN <<WideInt(x[2]), [i \in 1..Len(x[3]) |-> <<WideInt(x[3][i][1]), WideInt(x[3][i][2])>>]>>
  ELSE IF x[1] = 196 /\ x[2][1] = 132 THEN Operands(x[2], 0, <<"B", "H", "h">>)
  ELSE IF x[1] = 196 THEN Operands(x[2], 0, <<"B", "H">>)
  ELSE Operands(x[2], 0, Shape(x[1]))

Nops(k) == [i \in 1..k |-> <<0, <<>>>>]
Programs(k) == UNION {[1..j -> Ins] : j \in 1..k}

VARIABLES prog, code, pc, seen
Init == \E k \in 0..MaxPad, xs \in Programs(MaxIns) :
          /\ prog = Nops(k) \o xs /\ code = EncCode(prog) /\ pc = 0 /\ seen = <<>>
Next == /\ pc < Len(code)
        /\ LET x == Instr(code, pc)
           IN pc' = x.next /\ seen' = Append(seen, <<pc, x.op, x.args>>)
        /\ UNCHANGED <<prog, code>>

Inside == pc <= Len(code)
OnBoundary == pc < Len(code) => \E i \in 1..Len(prog) : Starts(prog)[i] = pc
SeenRight == \A i \in 1..Len(seen) : seen[i] = <<Starts(prog)[i], prog[i][1], Meaning(prog[i])>>
Complete == pc = Len(code) => Len(seen) = Len(prog) /\ seen = Disassembly(code)
Forward == [][pc' > pc]_<<pc, seen, prog, code>>

ASSUME ("SCEN" \notin DOMAIN IOEnv)
       \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq({[code |-> EncCode(Nops(k) \o xs)] : k \in 0..3, xs \in Programs(ScenIns)}))
=============================================================================
