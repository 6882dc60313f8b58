SPECIFICATION TSpec
CONSTANT Rnds = {1}
CONSTANT Trees = {}
CONSTANT Ids = {}
