CONSTANTS MaxAdds = 3
          ScenAdds = 2
INIT Init
NEXT Next
INVARIANTS ProvidesRight RequiresRight Disjoint
PROPERTY Grows
CHECK_DEADLOCK FALSE
