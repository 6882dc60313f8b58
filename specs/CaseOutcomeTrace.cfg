SPECIFICATION TSpec
CONSTANT Msgs = {}
CONSTANT MaxOps = 0
