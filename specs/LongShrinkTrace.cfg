SPECIFICATION TSpec
CONSTANT Combs = {}
