SPECIFICATION MSpec
CONSTANTS N = 4 M = 2 W = 3 Deaths = 2 Words = FALSE Faulty <- FAll
INVARIANTS Conserved OnlyOnce OkIsRight ErrorHasCause
PROPERTIES Ends HelpersEnd
CHECK_DEADLOCK FALSE
