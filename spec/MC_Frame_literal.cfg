CONSTANTS
  Literal = TRUE
  Borrow = FALSE
  Beside = FALSE
INIT Init
NEXT Next
INVARIANTS TypeOK Weaker Kept
CHECK_DEADLOCK FALSE
