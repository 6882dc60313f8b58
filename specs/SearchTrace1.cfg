SPECIFICATION TSpec
CONSTANT Params = {}
CONSTANT CheckSizes = FALSE
INVARIANT TInv
CHECK_DEADLOCK TRUE
