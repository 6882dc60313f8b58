SPECIFICATION Spec
CONSTANT Params <- MCParams
INVARIANTS TypeOK SuccessExact NoOverrun DiscardLimit SizeInRange BaseInRange MaxReached Monotone StartsAtZero Even
PROPERTY Terminates
CHECK_DEADLOCK TRUE
