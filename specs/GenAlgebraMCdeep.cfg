SPECIFICATION Spec
CONSTANTS Wide = TRUE
 Sizes = {0, 60}
 Salts = {0, 1, 2, 3, 4, 5}
INVARIANTS Contract ShrinksKnown NoShrinksOfErr OneAtATime NothingFirst NoShrink Terminates
CHECK_DEADLOCK FALSE
