CONSTANTS MaxOps = 6
          MaxKids = 2
          ScenOps = 2
INIT Init
NEXT Next
INVARIANTS VerdictKept Aggregates SimpleExact SquashKeeps
CHECK_DEADLOCK FALSE
