CONSTANTS Careless = FALSE
          N = 4
INIT Init
NEXT Next
INVARIANTS Exact Placeless Reasons Unmet
CHECK_DEADLOCK FALSE
