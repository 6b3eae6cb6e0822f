----------------------------- MODULE MC_Repeat ------------------------------
(***************************************************************************)
(* Two runs of a command on each of some inputs, the second in the process *)
(* the first was made in.  A run lists the input item by item, in any      *)
(* order, puts the list in order, hands each item to a helper or does it   *)
(* itself, and puts every result in its item's place.                      *)
(***************************************************************************)
EXTENDS Repeat, TLC
CONSTANTS Names, Helpers,
          Unsorted,       \* answer in the order the items were learned (as a check of the properties)
          AsDone,         \* answer in the order the results came in
          Stale           \* results are kept by name alone, whatever the input
\* an input: what is under each name; "" is nothing
Contents == {"", "x", "y"}
Inputs == [Names -> Contents]
Items(w) == {n \in Names : w[n] # ""}
Work(n, c) == <<n, c>>
Answer(w) == LET o == InOrder(Items(w)) IN [i \in 1..Len(o) |-> Work(o[i], w[o[i]])]

VARIABLES inputs,   \* the inputs asked about, one after another
          at,       \* which of them now
          phase, found, queue, busy, done, kept, mem, said
vars == <<inputs, at, phase, found, queue, busy, done, kept, mem, said>>
Init == /\ inputs \in {<<a, b, a>> : a \in Inputs, b \in Inputs}
        /\ at = 1 /\ phase = "list" /\ found = <<>> /\ queue = <<>> /\ busy = {} /\ done = <<>> /\ kept = [n \in {} |-> ""] /\ mem = NoMemory /\ said = <<>>
W == inputs[at]
Elems(s) == {s[i] : i \in 1..Len(s)}
List == /\ phase = "list" /\ \E n \in Items(W) \ Elems(found) : found' = Append(found, n)
        /\ UNCHANGED <<inputs, at, phase, queue, busy, done, kept, mem, said>>
Sort == /\ phase = "list" /\ Elems(found) = Items(W)
        /\ queue' = IF Unsorted THEN found ELSE InOrder(Elems(found))
        /\ phase' = "work" /\ done' = <<>>
        /\ UNCHANGED <<inputs, at, found, busy, kept, mem, said>>
\* places in the queue nobody has taken
Left == (1..Len(queue)) \ (busy \cup {done[i][1] : i \in 1..Len(done)})
Start == /\ phase = "work" /\ Left # {} /\ Cardinality(busy) < Helpers
         /\ LET i == CHOOSE x \in Left : \A y \in Left : x <= y IN busy' = busy \cup {i}
         /\ UNCHANGED <<inputs, at, phase, found, queue, done, kept, mem, said>>
Result(n) == IF Stale /\ n \in DOMAIN kept THEN kept[n] ELSE Work(n, W[n])
Finish == /\ phase = "work" /\ \E i \in busy :
               /\ busy' = busy \ {i}
               /\ done' = Append(done, <<i, Result(queue[i])>>)
               /\ kept' = [n \in DOMAIN kept \cup {queue[i]} |-> IF n = queue[i] THEN Result(n) ELSE kept[n]]
          /\ UNCHANGED <<inputs, at, phase, found, queue, mem, said>>
Placed == [i \in 1..Len(queue) |-> (CHOOSE x \in Elems(done) : x[1] = i)[2]]
Say == /\ phase = "work" /\ Len(done) = Len(queue)
       /\ LET a == IF AsDone THEN [i \in 1..Len(done) |-> done[i][2]] ELSE Placed IN
          /\ said' = Append(said, <<W, a, Fits(mem, W, a)>>)
          /\ mem' = Remember(mem, W, a)
       /\ phase' = IF at = Len(inputs) THEN "end" ELSE "list"
       /\ at' = IF at = Len(inputs) THEN at ELSE at + 1
       /\ found' = <<>> /\ queue' = <<>> /\ done' = <<>>
       /\ UNCHANGED <<inputs, busy, kept>>
Next == List \/ Sort \/ Start \/ Finish \/ Say

TypeOK == at \in 1..Len(inputs) /\ busy \subseteq 1..Len(queue) /\ Len(done) <= Len(queue)
\* whatever was heard before fits what is said again
Same == \A i \in 1..Len(said) : said[i][3]
\* the answers are functions of the input: of any two on the same, and of the memory
Function == \A i, j \in 1..Len(said) : (said[i][1] = said[j][1]) => (said[i][2] = said[j][2])
\* what was heard is the answer of the rules
Right == \A i \in 1..Len(said) : said[i][2] = Answer(said[i][1])
Agree == Same <=> Function
=============================================================================
