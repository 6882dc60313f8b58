SPECIFICATION Spec
CONSTANTS
  PathBits = 64
  Chars = {97, 61, 32, 39, 34, 92}
  MaxLen = 7
INVARIANTS Machine NoEmptyKey Unique RoundTrip Override Refused Confs
CHECK_DEADLOCK FALSE
