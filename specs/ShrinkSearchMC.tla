----------------------------- MODULE ShrinkSearchMC -----------------------------
EXTENDS ShrinkSearch
CONSTANTS Wide, Deep       \* branching of the root / of its children
Outs == {"F", "S", "D"}
Kids(Set, n) == UNION {[1..k -> Set] : k \in 0..n}
L0 == [o : Outs, c : {<<>>}]
L1 == [o : Outs, c : Kids(L0, Deep)]
L2 == [o : {"F"}, c : Kids(L1, Wide)]
===============================================================================
