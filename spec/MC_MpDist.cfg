SPECIFICATION MSpec
CONSTANTS N = 3 M = 2 W = 2 Deaths = 1 Words = FALSE Faulty <- FAll
INVARIANTS Conserved OnlyOnce OkIsRight ErrorHasCause
PROPERTIES Ends HelpersEnd
CHECK_DEADLOCK FALSE
