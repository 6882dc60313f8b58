SPECIFICATION Spec
CONSTANT Trees <- L2
CONSTANT Wide = 3
CONSTANT Deep = 2
INVARIANTS PathValid BestFails NothingSkipped LocalMinimum GreedyResult
PROPERTY Terminates
