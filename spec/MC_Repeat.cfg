CONSTANTS
  Names = {1, 2, 3}
  Helpers = 2
  Unsorted = FALSE
  AsDone = FALSE
  Stale = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK Same Function Right Agree
CHECK_DEADLOCK FALSE
