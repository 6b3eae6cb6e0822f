CONSTANTS Bs = {0, 1, 255}
          MaxLen = 5
          MaxOps = 4
INIT Init
NEXT Next
INVARIANTS Agree InRange NothingLost
PROPERTIES Forward ShortKeeps ClosedStays
CHECK_DEADLOCK FALSE
