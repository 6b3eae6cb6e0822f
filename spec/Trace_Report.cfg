CONSTANTS Start <- TStart
          Bad <- TBad
          After <- TAfter
INIT KInit
NEXT KNext
CHECK_DEADLOCK FALSE
