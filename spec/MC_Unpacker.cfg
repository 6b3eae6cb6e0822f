CONSTANTS Bs = {0, 1, 255}
          MaxLen = 4
          MaxOps = 3
INIT Init
NEXT Next
INVARIANTS Agree InRange NothingLost
PROPERTIES Forward ShortKeeps ClosedStays
CHECK_DEADLOCK FALSE
