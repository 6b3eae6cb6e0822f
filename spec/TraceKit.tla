------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Total trace validation.  Every recorded trace is one line of the file   *)
(* named by the environment variable TRACE: a record with a sequence       *)
(* "steps".  A module that extends this one says what abstract state a     *)
(* trace starts in, why an observed step is NOT a step of the              *)
(* specification from an abstract state ("" when it is one), and which     *)
(* abstract state it leads to.  Every trace gets exactly one verdict,      *)
(* printed as <<"DONE", i>> or <<"REJECT", i, step, clause>>; the traces   *)
(* are independent initial states, so one rejection hides no other.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_),       \* trace -> abstract state
          Bad(_, _),      \* abstract state, step -> "" or failing clause
          After(_, _)     \* abstract state, step -> abstract state

VARIABLES ci, l, st

Trace == ndJsonDeserialize(IOEnv.TRACE)

KInit == /\ ci \in 1..Len(Trace)
         /\ l = 1
         /\ st = Start(Trace[ci])

KNext ==
  /\ l <= Len(Trace[ci].steps)
  /\ LET ev  == Trace[ci].steps[l]
         bad == Bad(st, ev)
     IN IF bad = ""
        THEN /\ st' = After(st, ev)
             /\ l' = l + 1
             /\ ci' = ci
             /\ (l < Len(Trace[ci].steps) \/ PrintT(<<"DONE", ci>>))
        ELSE /\ PrintT(<<"REJECT", ci, l, bad>>)
             /\ st' = st
             /\ l' = Len(Trace[ci].steps) + 2
             /\ ci' = ci
=============================================================================
