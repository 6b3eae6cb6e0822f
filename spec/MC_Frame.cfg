CONSTANTS
  Literal = FALSE
  Borrow = FALSE
  Beside = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK Kept Always Delivered Weaker
CHECK_DEADLOCK FALSE
