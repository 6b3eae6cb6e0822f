CONSTANTS Direct = TRUE
          Pieces = 2
SPECIFICATION Spec
INVARIANTS InputKept TargetWhole NewComplete NoHalf NoStrays NoStraysOnce Succeeds
PROPERTY Ends
CHECK_DEADLOCK FALSE
