CONSTANTS Careless = FALSE
INIT Init
NEXT Next
INVARIANTS Faithful Verifies Notices Answers
CHECK_DEADLOCK FALSE
