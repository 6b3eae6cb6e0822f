CONSTANTS Careless = TRUE
          MaxArgs = 2
INIT Init
NEXT Next
INVARIANTS Right Contained Whole
CHECK_DEADLOCK FALSE
