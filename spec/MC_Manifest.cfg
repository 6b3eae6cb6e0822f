CONSTANTS MaxLen = 2
          Width = 4
          ScenLen = 4
INIT Init
NEXT Next
INVARIANTS ReadsBack Final Live
CHECK_DEADLOCK FALSE
CONSTANT AnyDoc = FALSE
INVARIANT Refusing
