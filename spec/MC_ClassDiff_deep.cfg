CONSTANTS MaxEdits = 2
          ScenEdits = 2
INIT Init
NEXT Next
INVARIANTS FacetsExact SwapSymmetric
CHECK_DEADLOCK FALSE
