----------------------------- MODULE ShrinkTreeMC -----------------------------
(* All expressions of a few nodes over small trees, the last node being what is   *)
(* looked at.                                                                     *)
EXTENDS ShrinkTree, TLC
CONSTANTS MaxNodes, Leaves, MaxTree
vars == <<nodes>>
N == Len(nodes)
Nd(k, c, p) == [k |-> k, c |-> c, p |-> p]
Init == nodes = <<>>
Add(nd) == N < MaxNodes /\ nodes' = Append(nodes, nd)
Small(i) == Len(Flat(Build(i))) <= MaxTree
Done == 1..N
Next == /\ N > 0 => Small(N)
        /\ \/ \E p \in Leaves : Add(Nd("lit", <<>>, p)) \/ Add(Nd("rec", <<>>, p))
           \/ \E i \in Done, p \in {1, 2} : Add(Nd("lit", <<i>>, p))
           \/ \E i, j \in Done : Add(Nd("lit", <<i, j>>, 2)) \/ Add(Nd("pair", <<i, j>>, 0))
           \/ \E i \in Done : Add(Nd("map", <<i>>, 1)) \/ Add(Nd("post", <<i>>, 0))
           \/ \E i \in Done, p \in 0..5 : Add(Nd("shrinks", <<i>>, p))
           \/ \E i, j \in Done, p \in 1..3 : Add(Nd("filter", <<i, j>>, p))
           \/ \E i, j \in Done : Add(Nd("bind", <<i, j>>, 0))
           \/ \E i, j, k \in Done : j < k /\ Add(Nd("bind", <<i, j, k>>, 0))
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
T == Build(N)
L == nodes[N]
In == Build(L.c[1])
Looked == IF N = 0 THEN FALSE ELSE Small(N)
Is(k) == IF Looked THEN L.k = k ELSE FALSE
Range(s) == {s[j] : j \in 1..Len(s)}
MapKeepsShape == Is("map") => LET a == Flat(In) IN
  Flat(T) = [j \in 1..Len(a) |-> << <<"m", L.p, a[j][1]>>, a[j][2]>>]
FilterLeavesGood == (IF Is("filter") THEN Pred(L.p, V(In)) ELSE FALSE) =>
  /\ \A v \in Range(Values(T)) : Pred(L.p, v)
  /\ Range(Values(T)) \subseteq Range(Values(In))
  /\ (All(L.p, In).res <=> Flat(T) = Flat(In))
PairHasAll == Is("pair") =>
  LET a == Range(Values(In)) b == Range(Values(Build(L.c[2]))) IN
  Range(Values(T)) = {<<"t", x, y>> : x \in a, y \in b}
BindStarts == Is("bind") => V(T) = V(Build(Second(N, V(In))))
(* what the parts offer is offered first: shrinks of the first part, then of the second *)
BindOrder == Is("bind") => LET n == Len(K(In)) k == K(Build(Second(N, V(In)))) IN
  /\ Len(K(T)) = n + Len(k)
  /\ \A j \in 1..Len(k) : Flat(K(T)[n + j]) = Flat(k[j])
PostKeeps == Is("post") =>
  /\ V(T) = V(In) /\ Range(Values(In)) \subseteq Range(Values(T))
  /\ \A j \in 1..Len(K(In)) : V(K(T)[j]) = V(K(In)[j])
  /\ \A j \in 1..Len(More(V(In))) : V(K(T)[Len(K(In)) + j]) = More(V(In))[j]
OnlyHere == Is("shrinks") => V(T) = V(In) /\ (L.p # 4 => Range(K(T)) \subseteq Range(K(In)) \cup {Extra})
AllIsEvery == Looked => \A p \in 0..3 : All(p, T).res = (\A v \in Range(Values(T)) : Pred(p, v))
Minimal == Looked => \A p \in 0..3 : LET m == LocalMin(p, T) IN
  /\ \A k \in Range(K(m.s)) : ~Pred(p, V(k))
  /\ m.n > 0 => Pred(p, V(m.s))
  /\ V(m.s) \in Range(Values(T))
Walks == Looked => /\ Walk(T, <<>>) = T /\ Walk(T, <<Len(K(T))>>) = None
                   /\ \A j \in 1..Len(K(T)) : V(Walk(T, <<j - 1>>)) = Immediate(T)[j]
===============================================================================
