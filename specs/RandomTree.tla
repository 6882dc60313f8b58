------------------------------ MODULE RandomTree ------------------------------
(* Splittable random generators (property C13).                                 *)
(* Abstractly a generator is a place [key, path, n]: the key it was made from,  *)
(* the way taken through the tree of splits (0 for the generator that was       *)
(* split, 1 for the one returned) and the numbers drawn since.                  *)
(* After CounterMax draws the generator continues at the place path \o <<1>>    *)
(* (it must not be split any more, so nothing else is there).                   *)
EXTENDS Naturals, Sequences, FiniteSets
Place(key, path, n) == [key |-> key, path |-> path, n |-> n]
IsPrefix(a, b) == IF Len(a) > Len(b) THEN FALSE ELSE SubSeq(b, 1, Len(a)) = a
(* one is the other after some splits it survived itself: the two may share      *)
(* numbers, as a generator is either drawn from or split. What a split returns   *)
(* shares nothing with any generator above it.                                   *)
OnlyZeros(s) == \A i \in DOMAIN s : s[i] = 0
Above1(a, b) == IF ~IsPrefix(a, b) THEN FALSE ELSE OnlyZeros(SubSeq(b, Len(a) + 1, Len(b)))
Related(p, q) == p.key = q.key /\ p.path # q.path /\ (Above1(p.path, q.path) \/ Above1(q.path, p.path))
===============================================================================
