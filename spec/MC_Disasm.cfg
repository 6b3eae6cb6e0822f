CONSTANTS MaxIns = 2
          MaxPad = 3
          ScenIns = 2
INIT Init
NEXT Next
INVARIANTS Inside OnBoundary SeenRight Complete
PROPERTY Forward
CHECK_DEADLOCK FALSE
