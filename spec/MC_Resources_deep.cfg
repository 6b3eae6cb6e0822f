CONSTANTS MaxOps = 8
          KeepPartial = FALSE
          LeakJar = FALSE
INIT Init
NEXT Next
INVARIANTS Held Released Truthful
CHECK_DEADLOCK FALSE
