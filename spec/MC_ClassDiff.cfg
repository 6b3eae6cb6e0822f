CONSTANTS MaxEdits = 1
          ScenEdits = 1
INIT Init
NEXT Next
INVARIANTS FacetsExact SwapSymmetric
CHECK_DEADLOCK FALSE
