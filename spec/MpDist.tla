------------------------------ MODULE MpDist ------------------------------
(***************************************************************************)
(* Distribution comparison shared out over helper processes.  The parent   *)
(* feeds the tasks (the changed jars and classes) and as many stop markers *)
(* as it starts helpers, examines the other entries itself meanwhile, and  *)
(* then collects one result for each task.  A helper takes tasks until it  *)
(* takes a stop marker.  Examining may fail; a helper may die at any time. *)
(*                                                                         *)
(* Tasks are 1..N, entries the parent examines itself are N+1..N+M.        *)
(* Faulty entries fail when they are examined.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N, M, W,      \* tasks, other entries, helpers asked for
          Faulty,       \* set of sets of entries: one is chosen
          Deaths        \* how many helpers may die

STOP == 0
Tasks == 1..N
Others == (N + 1)..(N + M)
Entries == 1..(N + M)
Started == IF W < N THEN W ELSE N
Helpers == 1..Started

VARIABLES faulty, pc, fed, started, tasks, results, state, hold, synced, got, examined, deaths
vars == <<faulty, pc, fed, started, tasks, results, state, hold, synced, got, examined, deaths>>

Init ==
  /\ faulty \in Faulty
  /\ pc = "feed" /\ fed = 0 /\ started = 0
  /\ tasks = <<>> /\ results = <<>>
  /\ state = [k \in Helpers |-> "off"] /\ hold = [k \in Helpers |-> STOP]
  /\ synced = 0
  /\ got = [t \in Tasks |-> 0]            \* 0: nothing, otherwise the entry the result is for
  /\ examined = [e \in Entries |-> 0]
  /\ deaths = 0

(* ------------------------------------------------------------ parent *)
Feed ==
  /\ pc = "feed"
  /\ IF fed < N THEN tasks' = Append(tasks, fed + 1) /\ fed' = fed + 1 /\ pc' = pc
     ELSE pc' = "start" /\ UNCHANGED <<tasks, fed>>
  /\ UNCHANGED <<faulty, started, results, state, hold, synced, got, examined, deaths>>

StartHelper ==
  /\ pc = "start"
  /\ IF started < Started
     THEN /\ tasks' = Append(tasks, STOP)
          /\ started' = started + 1
          /\ state' = [state EXCEPT ![started + 1] = "idle"]
          /\ pc' = pc
     ELSE pc' = "sync" /\ UNCHANGED <<tasks, started, state>>
  /\ UNCHANGED <<faulty, fed, results, hold, synced, got, examined, deaths>>

Sync ==
  /\ pc = "sync"
  /\ IF synced < M
     THEN LET e == N + synced + 1
          IN /\ synced' = synced + 1
             /\ examined' = [examined EXCEPT ![e] = @ + 1]
             /\ pc' = IF e \in faulty THEN "error" ELSE pc
     ELSE pc' = "collect" /\ UNCHANGED <<synced, examined>>
  /\ UNCHANGED <<faulty, fed, started, tasks, results, state, hold, got, deaths>>

Missing == {t \in Tasks : got[t] = 0}
Collect ==
  /\ pc = "collect"
  /\ IF Missing = {}
     THEN /\ pc' = IF faulty \cap Tasks # {} THEN "error" ELSE "ok"
          /\ UNCHANGED <<results, got>>
     ELSE /\ results # <<>>
          /\ got' = [got EXCEPT ![Head(results)] = Head(results)]
          /\ results' = Tail(results)
          /\ pc' = pc
  /\ UNCHANGED <<faulty, fed, started, tasks, state, hold, synced, examined, deaths>>

\* nothing is left to read and a helper is gone
Notice ==
  /\ pc = "collect" /\ Missing # {} /\ results = <<>>
  /\ \E k \in Helpers : state[k] = "dead"
  /\ pc' = "error"
  /\ UNCHANGED <<faulty, fed, started, tasks, results, state, hold, synced, got, examined, deaths>>

Parent == Feed \/ StartHelper \/ Sync \/ Collect \/ Notice

(* ----------------------------------------------------------- helpers *)
Take(k) ==
  /\ pc # "error" /\ state[k] = "idle" /\ tasks # <<>>
  /\ tasks' = Tail(tasks)
  /\ IF Head(tasks) = STOP THEN state' = [state EXCEPT ![k] = "done"] /\ UNCHANGED <<hold, examined>>
     ELSE /\ state' = [state EXCEPT ![k] = "busy"]
          /\ hold' = [hold EXCEPT ![k] = Head(tasks)]
          /\ examined' = [examined EXCEPT ![Head(tasks)] = @ + 1]
  /\ UNCHANGED <<faulty, pc, fed, started, results, synced, got, deaths>>

\* a result, or that examining it failed
Deliver(k) ==
  /\ pc # "error" /\ state[k] = "busy"
  /\ results' = Append(results, hold[k])
  /\ state' = [state EXCEPT ![k] = "idle"]
  /\ hold' = [hold EXCEPT ![k] = STOP]
  /\ UNCHANGED <<faulty, pc, fed, started, tasks, synced, got, examined, deaths>>

Die(k) ==
  /\ pc \notin {"ok", "error"} /\ deaths < Deaths /\ state[k] \in {"idle", "busy"}
  /\ state' = [state EXCEPT ![k] = "dead"]
  /\ deaths' = deaths + 1
  /\ UNCHANGED <<faulty, pc, fed, started, tasks, results, hold, synced, got, examined>>

Helper(k) == Take(k) \/ Deliver(k)
Next == Parent \/ \E k \in Helpers : Helper(k) \/ Die(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Parent) /\ \A k \in Helpers : WF_vars(Helper(k))

(* -------------------------------------------------------- properties *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
B(c) == IF c THEN 1 ELSE 0
HeldBy(t) == Cardinality({k \in Helpers : hold[k] = t})
\* every task is in exactly one place, always
Conserved ==
  \A t \in Tasks : B(t > fed) + Count(tasks, t) + HeldBy(t) + Count(results, t) + B(got[t] # 0) = 1
OnlyOnce == \A e \in Entries : examined[e] <= 1
\* a finished comparison has examined everything once and every result is
\* where it belongs
OkIsRight ==
  pc = "ok" => /\ \A e \in Entries : examined[e] = 1
               /\ \A t \in Tasks : got[t] = t
               /\ faulty = {}
ErrorHasCause == pc = "error" => faulty # {} \/ deaths > 0
Ends == <>(pc \in {"ok", "error"})
\* all helpers end once the comparison is done
HelpersEnd == [](pc = "ok" => <>(\A k \in Helpers : state[k] \in {"done", "dead"}))
=============================================================================
