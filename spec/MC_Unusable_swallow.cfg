CONSTANTS Swallow = TRUE
INIT Init
NEXT Next
INVARIANTS TypeOK Allowed Honest Mending
CHECK_DEADLOCK FALSE
