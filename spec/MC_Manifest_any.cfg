CONSTANTS MaxLen = 2
          Width = 4
          ScenLen = 4
INIT Init
NEXT Next
INVARIANTS ReadsBack
CHECK_DEADLOCK FALSE
CONSTANT AnyDoc = TRUE
