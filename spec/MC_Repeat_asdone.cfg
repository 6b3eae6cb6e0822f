CONSTANTS
  Names = {1, 2, 3}
  Helpers = 2
  Unsorted = FALSE
  AsDone = TRUE
  Stale = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK Agree Same
CHECK_DEADLOCK FALSE
