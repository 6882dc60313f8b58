SPECIFICATION MCSpec
CONSTANTS
  TryLimit = 2
  MaxLen = 3
  Kinds = {0, 1}
  Values = {0, 1, 2}
  Depth = 3
  PreRules = {1, 2, 3, 4}
  PfRules = {0, 3}
  AppRules = {0, 1, 2}
  RunRules = {1}
INVARIANTS AlwaysValid GeneratedLength TriesBounded Runs KeepsOrder OnlyInvalidReplaced Smaller Listed Reason
PROPERTY Finishes
CHECK_DEADLOCK FALSE
