SPECIFICATION TSpec
CONSTANT Params = {}
CONSTANT CheckSizes = TRUE
INVARIANT TInv
CHECK_DEADLOCK TRUE
