INIT Init
NEXT Next
VIEW View
CONSTANT Careless = FALSE
INVARIANT Exact
INVARIANT Tree
PROPERTY Adds
CHECK_DEADLOCK FALSE
