------------------------------- MODULE LongSeqMC -------------------------------
(* the direct form against the list, for all small expressions of two levels     *)
EXTENDS LongSeq, TLC
CONSTANT N, P
N0(k, c, p, q) == [k |-> k, c |-> c, p |-> p, q |-> q]
Sources == {N0("range", <<>>, p, q) : p, q \in 0..P} \cup {N0("walk", <<>>, 1, q) : q \in 0..2} \cup {N0("cont", <<>>, 3, q) : q \in 0..P}
           \cup {N0("pairs", <<>>, p, 0) : p \in 0..P} \cup {N0(k, <<>>, p, q) : k \in {"mod", "modm"}, p \in 1..P, q \in 0..(2 * P)}
           \cup {N0(k, <<>>, p, q) : k \in {"while", "after"}, p, q \in 0..P}
One(c) == {N0(k, <<c>>, p, 0) : k \in {"add", "take", "drop"}, p \in 0..P} \cup {N0("cycle", <<c>>, 0, 0)} \cup {N0("blow", <<c>>, p, 0) : p \in 1..3}
Two(c, d) == {N0(k, <<c, d>>, 0, 0) : k \in {"concat", "zip"}}
Few == {s \in Sources : s.k \in {"walk", "cont"}}
Exprs == {<<r, a, b, s>> : r \in One(2), a \in Sources \cup One(4) \cup Two(3, 4), b \in Few, s \in Few}
         \cup {<<r, a, b, s>> : r \in Two(2, 3), a \in Sources \cup One(4), b \in Few, s \in Few}
(* cycle wants something *)
Fine == \A i \in 1..4 : nodes[i].k = "cycle" => LenOf(nodes[i].c[1]) # 0 /\ LenOf(nodes[i].c[1]) # Inf
MCInit == nodes \in Exprs
MCSpec == MCInit /\ [][FALSE]_nodes
Same == Fine => LET l == ListOf(1, N) IN
  /\ Len(l) = (IF LenOf(1) < N THEN LenOf(1) ELSE N)
  /\ \A i \in 1..Len(l) : l[i] = AtOf(1, i - 1)
===============================================================================
