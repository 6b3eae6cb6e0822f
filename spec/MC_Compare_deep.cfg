CONSTANTS Names1 = {"a"}
          Names2 = {"a", "b"}
          Names3 = {"a", "b"}
          NBodies = 3
          ScenEvery = 17
INIT Init
NEXT Next
INVARIANTS Done OnceEach
CHECK_DEADLOCK FALSE
