------------------------------- MODULE Disasm -------------------------------
(***************************************************************************)
(* The JVM instruction set (JVMS chapter 6) as a decoder: Step(code, pc)   *)
(* yields one instruction and where the next one begins.                   *)
(***************************************************************************)
EXTENDS Bytes, TLC

OpNames == <<
 "nop","aconst_null","iconst_m1","iconst_0","iconst_1","iconst_2","iconst_3","iconst_4","iconst_5",
 "lconst_0","lconst_1","fconst_0","fconst_1","fconst_2","dconst_0","dconst_1","bipush","sipush",
 "ldc","ldc_w","ldc2_w","iload","lload","fload","dload","aload",
 "iload_0","iload_1","iload_2","iload_3","lload_0","lload_1","lload_2","lload_3",
 "fload_0","fload_1","fload_2","fload_3","dload_0","dload_1","dload_2","dload_3",
 "aload_0","aload_1","aload_2","aload_3",
 "iaload","laload","faload","daload","aaload","baload","caload","saload",
 "istore","lstore","fstore","dstore","astore",
 "istore_0","istore_1","istore_2","istore_3","lstore_0","lstore_1","lstore_2","lstore_3",
 "fstore_0","fstore_1","fstore_2","fstore_3","dstore_0","dstore_1","dstore_2","dstore_3",
 "astore_0","astore_1","astore_2","astore_3",
 "iastore","lastore","fastore","dastore","aastore","bastore","castore","sastore",
 "pop","pop2","dup","dup_x1","dup_x2","dup2","dup2_x1","dup2_x2","swap",
 "iadd","ladd","fadd","dadd","isub","lsub","fsub","dsub","imul","lmul","fmul","dmul",
 "idiv","ldiv","fdiv","ddiv","irem","lrem","frem","drem","ineg","lneg","fneg","dneg",
 "ishl","lshl","ishr","lshr","iushr","lushr","iand","land","ior","lor","ixor","lxor","iinc",
 "i2l","i2f","i2d","l2i","l2f","l2d","f2i","f2l","f2d","d2i","d2l","d2f","i2b","i2c","i2s",
 "lcmp","fcmpl","fcmpg","dcmpl","dcmpg",
 "ifeq","ifne","iflt","ifge","ifgt","ifle",
 "if_icmpeq","if_icmpne","if_icmplt","if_icmpge","if_icmpgt","if_icmple","if_acmpeq","if_acmpne",
 "goto","jsr","ret","tableswitch","lookupswitch",
 "ireturn","lreturn","freturn","dreturn","areturn","return",
 "getstatic","putstatic","getfield","putfield",
 "invokevirtual","invokespecial","invokestatic","invokeinterface","invokedynamic",
 "new","newarray","anewarray","arraylength","athrow","checkcast","instanceof",
 "monitorenter","monitorexit","wide","multianewarray","ifnull","ifnonnull","goto_w","jsr_w" >>

ASSUME Len(OpNames) = 202

OpName(op) == OpNames[op + 1]

\* the JVM calls 0xc2 monitorenter; this library has always shown it as
\* "monitorentry", which is accepted as its name for it
NamesOf(op) == IF op = 194 THEN {"monitorenter", "monitorentry"} ELSE {OpName(op)}

\* operands that index the constant pool come first
ConstOps == {18, 19, 20} \cup (178..187) \cup {189, 192, 193, 197}

LocalOps == {21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 169}

\* operand layout: signed ("b","h","i") and unsigned ("B","H") fields
Shape(op) ==
  CASE op \in LocalOps \cup {188, 18} -> <<"B">>
    [] op = 16 -> <<"b">>
    [] op = 17 \/ op \in 153..168 \/ op \in {198, 199} -> <<"h">>
    [] op \in {19, 20} \/ op \in 178..184 \/ op \in {187, 189, 192, 193} -> <<"H">>
    [] op \in {185, 186} -> <<"H", "B", "B">>
    [] op = 197 -> <<"H", "B">>
    [] op = 132 -> <<"B", "b">>
    [] op \in {200, 201} -> <<"i">>
    [] OTHER -> <<>>

SizeOf(k) == CASE k \in {"B", "b"} -> 1 [] k \in {"H", "h"} -> 2 [] k = "i" -> 4
FieldAt(c, p, k) == IF k \in {"b", "h", "i"} THEN SignedInt(Slice(c, p, SizeOf(k)))
                    ELSE UnsignedInt(Slice(c, p, SizeOf(k)))

RECURSIVE Operands(_, _, _)
Operands(c, p, sh) == IF sh = <<>> THEN <<>>
                      ELSE <<FieldAt(c, p, Head(sh))>> \o Operands(c, p + SizeOf(Head(sh)), Tail(sh))
ShapeSize(sh) == FoldLeft(LAMBDA a, k : a + SizeOf(k), 0, sh)

Align(p) == ((p + 3) \div 4) * 4
I4(c, p) == SignedInt(Slice(c, p, 4))

\* the number of table entries, high - low + 1, without 32 bit overflow:
\* both ends are at least 0x80000000 apart at most in files we accept
TableCount(c, p) == Signed4(c, p + 4) - Signed4(c, p) + 1

\* instruction at pc: [next, op, args]
Instr(c, pc) ==
  LET op == c[pc + 1] IN
  IF op = 170
  THEN LET q == Align(pc + 1)
           n == TableCount(c, q + 4)
       IN [next |-> q + 12 + 4 * n, op |-> op,
           args |-> <<I4(c, q), I4(c, q + 4), I4(c, q + 8),
                      [i \in 1..n |-> I4(c, q + 12 + 4 * (i - 1))]>>]
  ELSE IF op = 171
  THEN LET q == Align(pc + 1)
           n == Nat4(c, q + 4)
       IN [next |-> q + 8 + 8 * n, op |-> op,
           args |-> <<I4(c, q), [i \in 1..n |-> <<I4(c, q + 8 * i), I4(c, q + 4 + 8 * i)>>]>>]
  ELSE IF op = 196
  THEN IF c[pc + 2] = 132
       THEN [next |-> pc + 6, op |-> op, args |-> Operands(c, pc + 1, <<"B", "H", "h">>)]
       ELSE [next |-> pc + 4, op |-> op, args |-> Operands(c, pc + 1, <<"B", "H">>)]
  ELSE [next |-> pc + 1 + ShapeSize(Shape(op)), op |-> op,
        args |-> Operands(c, pc + 1, Shape(op))]

\* the whole listing: <<offset, op, args>> in order
RECURSIVE Listing(_, _, _)
Listing(c, pc, acc) ==
  IF pc >= Len(c) THEN acc
  ELSE LET x == Instr(c, pc) IN Listing(c, x.next, Append(acc, <<pc, x.op, x.args>>))

Disassembly(c) == Listing(c, 0, <<>>)
=============================================================================
