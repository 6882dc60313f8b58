SPECIFICATION MCSpec
CONSTANTS
  TryLimit = 2
  MaxLen = 3
  Kinds = {0, 1}
  Values = {0, 2}
  Depth = 2
  PreRules = {1, 2, 3, 4}
  PfRules = {0, 2}
  AppRules = {0, 1}
  RunRules = {1}
INVARIANTS AlwaysValid GeneratedLength TriesBounded Runs KeepsOrder OnlyInvalidReplaced Smaller Listed Reason
PROPERTY Finishes
CHECK_DEADLOCK FALSE
