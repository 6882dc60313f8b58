SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxW = 3
  Ns = {1, 2, 3, 4, 7, 10, 13}
  Sizes = {0, 1, 2, 5, 10, 33, 49, 50, 51, 75, 99, 100, 101, 200}
INVARIANTS Range Right Bracket Refused Shares Order SameWide
PROPERTY Ends
CHECK_DEADLOCK FALSE
