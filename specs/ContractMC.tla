------------------------------ MODULE ContractMC ------------------------------
(* Numbers and characters under their contracts: any value, any shrinks.        *)
EXTENDS ScalarShrink, TLC, FiniteSets
CONSTANT M
VARIABLES nodes, v
C == INSTANCE Contract
Ints == {FromInt(x) : x \in (-M)..M}
Nd(k, c, lo, hi, vs) == [k |-> k, c |-> c, lo |-> lo, hi |-> hi, n |-> 0, vs |-> vs]
Anything == Nd("int", <<>>, FromInt(-M - 1), FromInt(M), <<>>)
Init == nodes = <<>> /\ v = <<>>
Choose == /\ nodes = <<>>
          /\ \/ \E lo, hi \in Ints : nodes' = <<Nd("range", <<>>, lo, hi, <<>>)>>
             \/ \E k \in {"nonzero", "pos", "neg", "nonneg", "even"} : nodes' = <<Nd(k, <<2>>, IntZero, IntZero, <<>>), Anything>>
             \/ \E x \in Ints : nodes' = <<Nd("distinct", <<2>>, IntZero, IntZero, <<<<"w", x>>>>), Anything>>
             \/ nodes' = <<Nd("char", <<2>>, IntZero, IntZero, <<>>), Nd("int", <<>>, FromInt(-128), FromInt(127), <<>>)>>
          /\ v' = v
Generate == /\ nodes # <<>> /\ v = <<>> /\ UNCHANGED nodes
            /\ \E x \in Ints \cup {FromInt(-M - 1)} \cup (IF nodes[1].k = "char" THEN {FromInt(y) : y \in 1..127} ELSE {}) :
                 C!Sat(1, <<"w", x>>) /\ v' = <<"w", x>>
Shrinks == CASE nodes[1].k = "range" -> Towards(v[2], nodes[1].lo)
             [] nodes[1].k = "char" -> [i \in 1..Len(Character(ToInt(v[2]))) |-> FromInt(Character(ToInt(v[2]))[i])]
             [] OTHER -> SelectSeq(Integral(v[2], TRUE), LAMBDA x : C!Sat(1, <<"w", x>>))   \* filtered
Shrink == v # <<>> /\ UNCHANGED nodes /\ \E i \in 1..Len(Shrinks) : v' = <<"w", Shrinks[i]>>
Next == Choose \/ Generate \/ Shrink
Spec == Init /\ [][Next]_<<nodes, v>>
KeepsContract == v # <<>> => C!Sat(1, v)
EmptyFails == nodes # <<>> /\ C!MustFail(1) => v = <<>>
===============================================================================
