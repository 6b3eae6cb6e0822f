CONSTANTS
  Names = {1, 2, 3}
  Helpers = 2
  Unsorted = TRUE
  AsDone = FALSE
  Stale = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK Agree Same
CHECK_DEADLOCK FALSE
