CONSTANTS MaxOps = 4
          MaxKids = 2
          ScenOps = 2
INIT Init
NEXT Next
INVARIANTS VerdictKept Aggregates SimpleExact SquashKeeps
CHECK_DEADLOCK FALSE
