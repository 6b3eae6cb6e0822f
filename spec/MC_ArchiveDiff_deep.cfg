CONSTANTS MaxEdits = 5
          ScenEdits = 3
          ScenEvery = 1
INIT Init
NEXT Next
INVARIANTS JarRight DistRight
CHECK_DEADLOCK FALSE
