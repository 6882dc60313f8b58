SPECIFICATION Spec
CONSTANTS Wide = FALSE
 Sizes = {0, 60}
 Salts = {1, 2}
INVARIANTS Contract ShrinksKnown NoShrinksOfErr OneAtATime NothingFirst NoShrink Terminates
CHECK_DEADLOCK FALSE
