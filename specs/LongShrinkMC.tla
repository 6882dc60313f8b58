----------------------------- MODULE LongShrinkMC -----------------------------
(* the comb form against the descent through the explicit tree                  *)
EXTENDS LongShrink, TLC
CONSTANTS MaxW, MaxD
K == INSTANCE ShrinkSearch WITH Trees <- {}, tree <- 0, mode <- 0, path <- 0, idx <- 0, phase <- 0, pend <- FALSE
MCCombs == UNION {[1..(d + 1) -> 0..MaxW] : d \in 0..MaxD}
Leaf(o) == [o |-> o, c |-> <<>>]
RECURSIVE Comb(_, _)
Comb(c, k) == [o |-> "F", c |-> [i \in 1..c[k] |-> Leaf(IF i % 2 = 0 THEN "S" ELSE "D")]
                \o (IF k = Len(c) THEN <<>> ELSE <<Comb(c, k + 1), Leaf("F")>>)]
Here == K!NodeAt(Comb(w, 1), path)
BestFails      == Here.o = "F"
NothingSkipped == \A k \in 1..idx : Here.c[k].o # "F"
GreedyResult   == phase = "final" => /\ path = Result
                                     /\ path = K!Greedy(Comb(w, 1))
                                     /\ \A k \in 1..Len(Here.c) : Here.c[k].o # "F"
Terminates     == <>(phase = "final")
===============================================================================
