------------------------------ MODULE ShrinkTree ------------------------------
(* Shrinkables as trees (property C24).                                         *)
(*                                                                              *)
(* A shrinkable is a value with a list of shrinks, which are shrinkables again.  *)
(* An expression is a table of nodes [k, c, p]: kind, nodes it is made from,     *)
(* parameter. Build(i) is the term of node i; V is the value of a term and K the *)
(* list of its shrinks.                                                         *)
(*   lit   value p with the shrinks c          rec   p with its shrinks again    *)
(*   map   function p on every value           shrinks  K replaced, only here    *)
(*   filter  subtrees with bad values left out (c[2] if nothing is left)         *)
(*   bind  c[1], then the tree chosen by its value; pair; post  more shrinks      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLE nodes

RECURSIVE Sum(_)
Sum(v) == CASE v[1] = "i" -> v[2] [] v[1] = "m" -> v[2] + Sum(v[3]) [] v[1] = "t" -> Sum(v[2]) + Sum(v[3])
Pred(p, v) == CASE p = 0 -> TRUE [] p = 1 -> (Sum(v) % 2) = 0 [] p = 2 -> (Sum(v) % 3) # 1 [] OTHER -> Sum(v) > 0
(* the shrinks of a value that rec and post use                                  *)
More(v) == LET n == Sum(v) IN
  IF n = 0 THEN <<>> ELSE IF n = 1 THEN << <<"i", 0>> >> ELSE << <<"i", 0>>, <<"i", n - 2>> >>
Second(i, v) == nodes[i].c[2 + (Sum(v) % (Len(nodes[i].c) - 1))]
Extra == [t |-> "rec", v |-> <<"i", 1>>]
-------------------------------------------------------------------------------
RECURSIVE Build(_)
RECURSIVE V(_)
RECURSIVE K(_)
Build(i) == LET nd == nodes[i] IN
  CASE nd.k = "lit" -> [t |-> "lit", i |-> i]
    [] nd.k = "rec" -> [t |-> "rec", v |-> <<"i", nd.p>>]
    [] nd.k = "map" -> [t |-> "map", p |-> nd.p, s |-> Build(nd.c[1])]
    [] nd.k = "shrinks" -> [t |-> "shrinks", p |-> nd.p, s |-> Build(nd.c[1])]
    [] nd.k = "filter" -> LET s == Build(nd.c[1]) IN
                          IF Pred(nd.p, V(s)) THEN [t |-> "filter", p |-> nd.p, s |-> s] ELSE Build(nd.c[2])
    [] nd.k = "bind" -> [t |-> "bind", i |-> i, s |-> Build(nd.c[1])]
    [] nd.k = "pair" -> [t |-> "pair", a |-> Build(nd.c[1]), b |-> Build(nd.c[2])]
    [] nd.k = "post" -> [t |-> "post", s |-> Build(nd.c[1])]
V(s) ==
  CASE s.t = "lit" -> <<"i", nodes[s.i].p>>
    [] s.t = "rec" -> s.v
    [] s.t = "map" -> <<"m", s.p, V(s.s)>>
    [] s.t \in {"shrinks", "filter", "post"} -> V(s.s)
    [] s.t = "bind" -> V(Build(Second(s.i, V(s.s))))
    [] s.t = "pair" -> <<"t", V(s.a), V(s.b)>>
Kept(p, ks) == LET Good(k) == Pred(p, V(k)) g == SelectSeq(ks, Good) IN [j \in 1..Len(g) |-> [t |-> "filter", p |-> p, s |-> g[j]]]
Recs(v) == LET m == More(v) IN [j \in 1..Len(m) |-> [t |-> "rec", v |-> m[j]]]
Replaced(p, ks) ==
  CASE p = 0 -> IF ks = <<>> THEN <<>> ELSE Tail(ks)
    [] p = 1 -> IF Len(ks) > 2 THEN SubSeq(ks, 1, 2) ELSE ks
    [] p = 2 -> Append(ks, Extra)
    [] p = 3 -> <<>>
    [] p = 4 -> [j \in 1..Len(ks) |-> [t |-> "map", p |-> 1, s |-> ks[j]]]
    [] p = 5 -> [j \in 1..Len(ks) |-> ks[Len(ks) + 1 - j]]
K(s) ==
  CASE s.t = "lit" -> [j \in 1..Len(nodes[s.i].c) |-> Build(nodes[s.i].c[j])]
    [] s.t = "rec" -> Recs(s.v)
    [] s.t = "map" -> LET ks == K(s.s) IN [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]]
    [] s.t = "shrinks" -> Replaced(s.p, K(s.s))
    [] s.t = "filter" -> Kept(s.p, K(s.s))
    [] s.t = "bind" -> LET ks == K(s.s) IN
                       [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]] \o K(Build(Second(s.i, V(s.s))))
    [] s.t = "pair" -> LET as == K(s.a) bs == K(s.b) IN
                       [j \in 1..Len(as) |-> [s EXCEPT !.a = as[j]]] \o [j \in 1..Len(bs) |-> [s EXCEPT !.b = bs[j]]]
    [] s.t = "post" -> LET ks == K(s.s) IN [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]] \o Recs(V(s.s))
-------------------------------------------------------------------------------
(* the whole tree, depth first: <<value, number of shrinks>>                     *)
RECURSIVE Flat(_)
RECURSIVE FlatAll(_, _, _)
FlatAll(ks, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN Flat(ks[a])
                     ELSE LET m == (a + b) \div 2 IN FlatAll(ks, a, m) \o FlatAll(ks, m + 1, b)
Flat(s) == LET ks == K(s) IN << <<V(s), Len(ks)>> >> \o FlatAll(ks, 1, Len(ks))
Values(s) == LET f == Flat(s) IN [j \in 1..Len(f) |-> f[j][1]]
(* operations                                                                   *)
Equal(s, u) == Flat(s) = Flat(u)
(* asked: the values the predicate is asked about                                *)
All(p, s) == LET vs == Values(s)
                 B == {j \in 1..Len(vs) : ~Pred(p, vs[j])} IN
  IF B = {} THEN [res |-> TRUE, asked |-> vs]
  ELSE [res |-> FALSE, asked |-> SubSeq(vs, 1, CHOOSE j \in B : \A k \in B : j <= k)]
Immediate(s) == LET ks == K(s) IN [j \in 1..Len(ks) |-> V(ks[j])]
RECURSIVE Walk(_, _)
None == [t |-> "none"]
Walk(s, path) == IF path = <<>> THEN s
                 ELSE LET ks == K(s) IN IF path[1] >= Len(ks) THEN None ELSE Walk(ks[path[1] + 1], Tail(path))
RECURSIVE MinFrom(_, _, _, _)
MinFrom(p, s, n, asked) ==
  LET ks == K(s)
      vs == Immediate(s)
      good == {j \in 1..Len(vs) : Pred(p, vs[j])} IN
  IF good = {} THEN [s |-> s, n |-> n, asked |-> asked \o vs]
  ELSE LET j == CHOOSE j \in good : \A i \in good : j <= i IN
       MinFrom(p, ks[j], n + 1, asked \o SubSeq(vs, 1, j))
LocalMin(p, s) == MinFrom(p, s, 0, <<>>)
===============================================================================
