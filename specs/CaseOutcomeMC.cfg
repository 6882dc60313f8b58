SPECIFICATION Spec
CONSTANT Msgs = {"", "a", "b"}
CONSTANT MaxOps = 3
INVARIANTS Declared EndedReported
