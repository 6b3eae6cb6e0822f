CONSTANTS
  Literal = FALSE
  Borrow = FALSE
  Beside = TRUE
INIT Init
NEXT Next
INVARIANTS TypeOK Weaker Always
CHECK_DEADLOCK FALSE
