INIT Init
NEXT Next
VIEW View
CONSTANT Careless = TRUE
INVARIANT Exact
CHECK_DEADLOCK FALSE
