CONSTANTS MaxDims = 2
          MaxArgs = 2
          SmallArgs = 2
INIT Init
NEXT Next
INVARIANTS ReadsBack FieldReadsBack
CHECK_DEADLOCK FALSE
