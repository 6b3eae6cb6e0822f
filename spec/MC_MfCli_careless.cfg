CONSTANTS Careless = TRUE
INIT Init
NEXT Next
INVARIANTS Faithful Verifies Notices Answers
CHECK_DEADLOCK FALSE
