------------------------------- MODULE Contract -------------------------------
(* What a generator may yield, now and after any number of shrinks             *)
(* (property C10). A generator is a tree of nodes                              *)
(*   [k, c, lo, hi, n, vs]: kind, parts, bounds, number, values                *)
(* Values: <<"w", <<negative, magnitude>>>> numbers (reals: by their bits),    *)
(*   <<"v", ...>> collections and text, <<"t", ...>> tuples, <<"n">>,          *)
(*   <<"j", v>> optional values, <<"m", f, v>> mapped values                   *)
EXTENDS Word64, FiniteSets
VARIABLE nodes
ILe(x, y) == x = y \/ ILt(x, y)
Elems(v) == {v[i] : i \in 2..Len(v)}
Distinct(v) == \A i, j \in 2..Len(v) : i # j => v[i] # v[j]
Key(v, m) == IF v[1] = "w" THEN v[2][2][1] % m ELSE 0
DistinctKeys(v, m) == \A i, j \in 2..Len(v) : i # j => Key(v[i], m) # Key(v[j], m)
RECURSIVE Weight(_)
RECURSIVE WeightFrom(_, _)
WeightFrom(v, i) == IF i > Len(v) THEN 0 ELSE Weight(v[i]) + WeightFrom(v, i + 1)
Weight(v) == CASE v[1] = "w" -> v[2][2][1] [] v[1] = "m" -> Weight(v[3]) [] OTHER -> WeightFrom(v, 2)
Even(v) == Weight(v) % 2 = 0
RECURSIVE Sat(_, _)
Sat(i, v) == LET nd == nodes[i] Part(u) == Sat(nd.c[1], u) IN
  CASE nd.k = "range" -> v[1] = "w" /\ ILe(nd.lo, v[2]) /\ ILt(v[2], nd.hi)
    [] nd.k = "int" -> v[1] = "w" /\ ILe(nd.lo, v[2]) /\ ILe(v[2], nd.hi)
    [] nd.k = "real" -> v[1] = "w"
    [] nd.k = "nonzero" -> Part(v) /\ v[2][2] # Zero64
    [] nd.k = "pos" -> Part(v) /\ ~v[2][1] /\ v[2][2] # Zero64
    [] nd.k = "neg" -> Part(v) /\ v[2][1] /\ v[2][2] # Zero64
    [] nd.k = "nonneg" -> Part(v) /\ (~v[2][1] \/ v[2][2] = Zero64)
    [] nd.k = "char" -> Part(v) /\ v[2][2] # Zero64
    [] nd.k = "elem" -> \E x \in 1..Len(nd.vs) : nd.vs[x] = v
    [] nd.k = "distinct" -> Part(v) /\ v # nd.vs[1]
    [] nd.k = "even" -> Part(v) /\ Even(v)
    [] nd.k = "nonempty" -> Part(v) /\ Len(v) > 1
    [] nd.k \in {"list", "text"} -> v[1] = "v" /\ (nd.n >= 0 => Len(v) = nd.n + 1) /\ \A x \in 2..Len(v) : Part(v[x])
    [] nd.k = "uniq" -> v[1] = "v" /\ (nd.n >= 0 => Len(v) = nd.n + 1) /\ (\A x \in 2..Len(v) : Part(v[x])) /\ Distinct(v)
    [] nd.k = "uniqby" -> v[1] = "v" /\ (nd.n >= 0 => Len(v) = nd.n + 1) /\ (\A x \in 2..Len(v) : Part(v[x])) /\ DistinctKeys(v, 5)
    [] nd.k = "map" -> v[1] = "v" /\ (nd.n >= 0 => Len(v) = nd.n + 1)
                       /\ (\A x \in 2..Len(v) : v[x][1] = "t" /\ Len(v[x]) = 3 /\ Part(v[x][2]) /\ Sat(nd.c[2], v[x][3]))
                       /\ (\A x, y \in 2..Len(v) : x # y => v[x][2] # v[y][2])
    [] nd.k = "tuple" -> v[1] = "t" /\ Len(v) = Len(nd.c) + 1 /\ \A x \in 1..Len(nd.c) : Sat(nd.c[x], v[x + 1])
    [] nd.k = "maybe" -> v = <<"n">> \/ (v[1] = "j" /\ Part(v[2]))
    [] nd.k = "fmap" -> v[1] = "m" /\ v[2] = nd.n /\ Part(v[3])
    (* a number, and one of the n numbers starting with it *)
    [] nd.k = "dep" -> v[1] = "t" /\ Len(v) = 3 /\ Part(v[2]) /\ v[3][1] = "w"
                       /\ ILe(v[2][2], v[3][2]) /\ ILt(v[3][2], IAdd(v[2][2], FromInt(nd.n)))
    [] nd.k = "choice" -> \E x \in 1..Len(nd.c) : Sat(nd.c[x], v)
    [] nd.k = "same" -> Part(v)
(* generation can fail only where a condition may be too hard to satisfy        *)
RECURSIVE MayFail(_)
MayFail(i) == LET nd == nodes[i] IN
  \/ nd.k \in {"distinct", "even", "nonempty", "uniq", "uniqby", "map"}
  \/ nd.k = "range" /\ ILe(nd.hi, nd.lo)
  \/ nd.k = "elem" /\ nd.vs = <<>>
  \/ \E x \in 1..Len(nd.c) : MayFail(nd.c[x])
(* and must fail where nothing satisfies it                                      *)
MustFail(i) == LET nd == nodes[i] IN
  \/ nd.k = "range" /\ ILe(nd.hi, nd.lo)
  \/ nd.k = "elem" /\ nd.vs = <<>>
===============================================================================
