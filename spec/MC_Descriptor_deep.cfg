CONSTANTS MaxDims = 2
          MaxArgs = 3
          SmallArgs = 3
INIT Init
NEXT Next
INVARIANTS ReadsBack FieldReadsBack
CHECK_DEADLOCK FALSE
