SPECIFICATION MSpec
CONSTANTS N = 2 M = 1 W = 2 Deaths = 1 Words = TRUE Faulty <- F0
INVARIANTS Emit
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
