SPECIFICATION Spec
CONSTANTS
  Sites = {1, 2}
  MaxPicks = 3
  Width = 2
  Depth = 2
INVARIANTS Replays SameSites OwnRandom FixedOnly
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
