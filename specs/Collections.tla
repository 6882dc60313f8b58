----------------------------- MODULE Collections -----------------------------
(* Generating and shrinking collections (property C09).                        *)
(* An element is <<key, value>> (value 0 where there is none). Kinds:          *)
(*   seq, multi : any elements       set, map : distinct keys                  *)
(*   unique     : distinct KeyOf(element)                                      *)
EXTENDS Naturals, Integers, Sequences
RemoveAt(s, start, n) == SubSeq(s, 1, start - 1) \o SubSeq(s, start + n, Len(s))
(* all chunks of n elements, from the first one *)
ChunksOf(s, n) == [i \in 1..(Len(s) - n + 1) |-> RemoveAt(s, i, n)]
RECURSIVE ChunksFrom(_, _)
ChunksFrom(s, n) == IF n = 0 THEN <<>> ELSE ChunksOf(s, n) \o ChunksFrom(s, n - 1)
RemoveChunks(s) == ChunksFrom(s, Len(s))

(* the elements the tests use shrink like this *)
Children(x) == IF x <= 0 THEN <<>>
               ELSE <<0>> \o (IF x \div 2 > 0 THEN <<x \div 2>> ELSE <<>>)
                          \o (IF x - 1 > x \div 2 THEN <<x - 1>> ELSE <<>>)
KeyOf(e, m) == e[1] % m
ElemChildren(e, pairs) ==
  LET ks == Children(e[1]) vs == IF pairs THEN Children(e[2]) ELSE <<>> IN
    [i \in 1..Len(ks) |-> <<ks[i], e[2]>>] \o [i \in 1..Len(vs) |-> <<e[1], vs[i]>>]
(* may element i become c without clashing with another element? *)
Fits(kind, m, s, i, c) ==
  CASE kind \in {"seq", "multi"} -> TRUE
    [] kind = "set" -> \A j \in 1..Len(s) : s[j][1] # c[1]
    [] kind = "map" -> c[1] = s[i][1] \/ \A j \in 1..Len(s) : s[j][1] # c[1]
    [] kind = "unique" -> KeyOf(c, m) = KeyOf(s[i], m) \/ \A j \in 1..Len(s) : KeyOf(s[j], m) # KeyOf(c, m)
RECURSIVE EachFrom(_, _, _, _, _)
EachFrom(kind, m, pairs, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET cs == SelectSeq(ElemChildren(s[i], pairs), LAMBDA c : Fits(kind, m, s, i, c)) IN
       [j \in 1..Len(cs) |-> [s EXCEPT ![i] = cs[j]]] \o EachFrom(kind, m, pairs, s, i + 1)
ShrinksOf(kind, m, pairs, fixed, s) ==
  (IF fixed THEN <<>> ELSE RemoveChunks(s)) \o EachFrom(kind, m, pairs, s, 1)
(* can e be added to what was generated so far? *)
Acceptable(kind, m, s, e) ==
  CASE kind \in {"seq", "multi"} -> TRUE
    [] kind \in {"set", "map"} -> \A j \in 1..Len(s) : s[j][1] # e[1]
    [] kind = "unique" -> \A j \in 1..Len(s) : KeyOf(s[j], m) # KeyOf(e, m)
===============================================================================
