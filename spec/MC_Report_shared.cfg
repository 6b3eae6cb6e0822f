CONSTANTS
  Parts = {"a", "A.class", "..", ".", "", "%", "%2E", "%2E%2E", "%25", "R.html", "R.json"}
  MaxParts = 2
  Entries = 2
  Careless = TRUE
  MaxKids = 1
INIT Init
NEXT Next
INVARIANT Alone
CHECK_DEADLOCK FALSE
