CONSTANTS Careless = FALSE
          MaxArgs = 3
INIT Init
NEXT Next
INVARIANTS Right Contained Whole
CHECK_DEADLOCK FALSE
