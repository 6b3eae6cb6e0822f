------------------------------- MODULE Repeat -------------------------------
(***************************************************************************)
(* Doing the same thing again.                                             *)
(*                                                                         *)
(* A command is asked something of an input: a set of items under names.   *)
(* It learns the items in an order nobody chose (of a hashed set, of a     *)
(* directory), has some of the work done by helpers which finish in an     *)
(* order nobody chose, in a process which may have done other things       *)
(* before.  What it answers is a function of the input and what was asked. *)
(*                                                                         *)
(* A memory of answers: a function from requests to the answer first had.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

NoMemory == [q \in {} |-> ""]
Heard(mem, q) == q \in DOMAIN mem
\* an answer which fits what was heard before
Fits(mem, q, answer) == Heard(mem, q) => (mem[q] = answer)
Remember(mem, q, answer) == IF Heard(mem, q) THEN mem ELSE [x \in DOMAIN mem \cup {q} |-> IF x = q THEN answer ELSE mem[x]]

\* the items in the order of their names
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o InOrder(S \ {m})
=============================================================================
