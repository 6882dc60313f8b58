SPECIFICATION TSpec
CONSTANT Trees = {}
INVARIANTS PathValid BestFails NothingSkipped LocalMinimum GreedyResult
