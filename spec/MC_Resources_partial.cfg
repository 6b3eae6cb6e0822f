CONSTANTS MaxOps = 4
          KeepPartial = TRUE
          LeakJar = FALSE
INIT Init
NEXT Next
INVARIANTS Held Released Truthful
CHECK_DEADLOCK FALSE
