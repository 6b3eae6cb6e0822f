CONSTANTS MaxOps = 4
          KeepPartial = FALSE
          LeakJar = FALSE
INIT Init
NEXT Next
INVARIANTS Held Released Truthful
CHECK_DEADLOCK FALSE
