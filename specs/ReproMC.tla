-------------------------------- MODULE ReproMC --------------------------------
EXTENDS Repro
F0 == [o |-> "F", c |-> <<>>]
S0 == [o |-> "S", c |-> <<>>]
D0 == [o |-> "D", c |-> <<>>]
MCTrees == {S0, F0, [o |-> "F", c |-> <<D0, F0>>], [o |-> "F", c |-> <<F0, S0>>],
            [o |-> "F", c |-> <<S0, [o |-> "F", c |-> <<F0>>]>>]}
===============================================================================
