CONSTANTS Depth = 2
          ScenDepth = 2
INIT Init
NEXT Next
INVARIANTS Sound NoForgery Complete Independent Naming SigningCovers
CHECK_DEADLOCK FALSE
