-------------------------------- MODULE Recipe --------------------------------
(* A case built from successive picks (property C07).                          *)
(*                                                                             *)
(* A pick's value is [s, r, p]: the generator (site) it was picked from, the   *)
(* random state it was generated from, and the path of shrinks taken since.    *)
(* Every node of the shrink tree of the case is a recipe: the picks it         *)
(* prescribes, in order, and how many of the leading ones are final. Running   *)
(* the case uses the prescribed picks first and generates the others, the i-th *)
(* pick always from the i-th random state of the case.                         *)
EXTENDS Naturals, Integers, Sequences

Fresh(s, r) == [s |-> s, r |-> r, p |-> <<>>]
ChildOf(v, c) == [v EXCEPT !.p = Append(@, c)]

(* n-th shrink of a case whose run made the picks all: the shrinks of the      *)
(* first pick not final, in order, then those of the next one and so on;       *)
(* counts[i] is the number of shrinks of the i-th pick                         *)
RECURSIVE ShrinksFrom(_, _, _)
ShrinksFrom(all, counts, i) ==
  IF i > Len(all) THEN <<>>
  ELSE [c \in 1..counts[i] |->
          [ings |-> Append(SubSeq(all, 1, i - 1), ChildOf(all[i], c)), fixed |-> i - 1]]
       \o ShrinksFrom(all, counts, i + 1)
ShrinksOf(all, fixed, Count(_)) == ShrinksFrom(all, [i \in 1..Len(all) |-> Count(all[i])], fixed + 1)
===============================================================================
