SPECIFICATION Spec
CONSTANT Rnds = {1, 2}
CONSTANT Trees <- MCTrees
CONSTANT Ids = {"", "a"}
INVARIANTS SameMinimal OriginalCase NeverGreen SkipOnly
CHECK_DEADLOCK FALSE
