CONSTANTS
  Literal = FALSE
  Borrow = TRUE
  Beside = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK Weaker Kept
CHECK_DEADLOCK FALSE
