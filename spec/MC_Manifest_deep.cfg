CONSTANTS MaxLen = 3
          Width = 4
          ScenLen = 5
INIT Init
NEXT Next
INVARIANTS ReadsBack Final Live
CHECK_DEADLOCK FALSE
CONSTANT AnyDoc = FALSE
INVARIANT Refusing
