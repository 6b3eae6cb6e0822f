CONSTANTS
  Names = {1, 2, 3}
  Helpers = 2
  Unsorted = FALSE
  AsDone = FALSE
  Stale = TRUE
INIT Init
NEXT Next
INVARIANTS TypeOK Agree Right
CHECK_DEADLOCK FALSE
