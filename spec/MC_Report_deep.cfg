CONSTANTS
  Parts = {"a", "..", "", "%", "%2E%2E", "R.html"}
  MaxParts = 3
  Entries = 2
  Careless = FALSE
  MaxKids = 2
INIT Init
NEXT Next
INVARIANTS Contained Alone TopKept Written
CHECK_DEADLOCK FALSE
