-------------------------------- MODULE LongSeq --------------------------------
(* Long sequences (property C12): the same list operations where lists are too   *)
(* long to write down. LenOf and AtOf give the length (Inf if it has no end) and *)
(* any element directly; ListOf is the list itself, for lists that are short.    *)
(* Nodes [k, c, p, q]: kind, children, parameters.                               *)
EXTENDS Naturals, Integers, Sequences
CONSTANT Inf
VARIABLES nodes
LOCAL Min(a, b) == IF a < b THEN a ELSE b
LOCAL Max(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
(* elements of sources *)
Contv(p, i) == ((7 * i) + p) % 1000
(* a range that goes up; the ones below filter it by remainder or bound          *)
(* how many pairs come before those of size s; sizes are n, n - 1, .. *)
Steps(n, s) == LET k == n - s IN (k * (k + 1)) \div 2
SizeAt(n, i) == CHOOSE s \in 1..n : Steps(n, s) <= i /\ i < Steps(n, s - 1)
RECURSIVE LenOf(_)
RECURSIVE AtOf(_, _)
LenOf(n) == LET nd == nodes[n] l == LenOf(nd.c[1]) m == LenOf(nd.c[2]) IN
  CASE nd.k = "range" -> Abs(nd.q - nd.p)
    [] nd.k = "walk" -> Inf
    [] nd.k = "cont" -> nd.q
    [] nd.k = "pairs" -> (nd.p * (nd.p + 1)) \div 2
    [] nd.k = "add" -> l
    [] nd.k = "take" -> Min(nd.p, l)
    [] nd.k = "drop" -> IF l = Inf THEN Inf ELSE Max(0, l - nd.p)
    [] nd.k = "cycle" -> Inf
    [] nd.k = "concat" -> IF l = Inf \/ m = Inf THEN Inf ELSE l + m
    [] nd.k = "zip" -> Min(l, m)
    [] nd.k = "blow" -> IF l = Inf THEN Inf ELSE l * nd.p
    (* every p-th number of 0..q-1, by filter or mapMaybe *)
    [] nd.k \in {"mod", "modm"} -> (nd.q + nd.p - 1) \div nd.p
    (* 0..q-1 up to p, or from p *)
    [] nd.k = "while" -> Min(nd.p, nd.q)
    [] nd.k = "after" -> Max(0, nd.q - nd.p)
AtOf(n, i) == LET nd == nodes[n] IN
  CASE nd.k = "range" -> IF nd.p < nd.q THEN nd.p + i ELSE nd.p - i
    [] nd.k = "walk" -> nd.p + (i * nd.q)
    [] nd.k = "cont" -> Contv(nd.p, i)
    [] nd.k = "pairs" -> LET s == SizeAt(nd.p, i) j == i - Steps(nd.p, s) IN (1000 * j) + j + s
    [] nd.k = "add" -> AtOf(nd.c[1], i) + nd.p
    [] nd.k = "take" -> AtOf(nd.c[1], i)
    [] nd.k = "drop" -> AtOf(nd.c[1], i + nd.p)
    [] nd.k = "cycle" -> AtOf(nd.c[1], i % LenOf(nd.c[1]))
    [] nd.k = "concat" -> LET l == LenOf(nd.c[1]) IN IF i < l THEN AtOf(nd.c[1], i) ELSE AtOf(nd.c[2], i - l)
    [] nd.k = "zip" -> AtOf(nd.c[1], i) - AtOf(nd.c[2], i)
    [] nd.k = "blow" -> AtOf(nd.c[1], i \div nd.p)
    [] nd.k \in {"mod", "modm"} -> i * nd.p
    [] nd.k = "while" -> i
    [] nd.k = "after" -> i + nd.p
-------------------------------------------------------------------------------
(* the list, its first N elements if it is longer                                *)
Cut(s, N) == SubSeq(s, 1, Min(N, Len(s)))
RECURSIVE Down(_, _)
Down(a, b) == IF a = b THEN <<>> ELSE IF a < b THEN <<a>> \o Down(a + 1, b) ELSE <<a>> \o Down(a - 1, b)
RECURSIVE Sized(_, _)           \* subranges of 0..n-1, size s and smaller
Sized(n, s) == IF s = 0 THEN <<>> ELSE [j \in 1..(n - s + 1) |-> (1000 * (j - 1)) + (j - 1) + s] \o Sized(n, s - 1)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
RECURSIVE Each(_, _)
Each(s, k) == IF s = <<>> THEN <<>> ELSE [j \in 1..k |-> s[1]] \o Each(SubSeq(s, 2, Len(s)), k)
RECURSIVE ListOf(_, _)
ListOf(n, N) == LET nd == nodes[n] A == ListOf(nd.c[1], N) B == ListOf(nd.c[2], N) up == Down(0, nd.q) IN Cut(
  CASE nd.k = "range" -> Down(nd.p, nd.q)
    [] nd.k = "walk" -> [j \in 1..N |-> nd.p + ((j - 1) * nd.q)]
    [] nd.k = "cont" -> [j \in 1..nd.q |-> Contv(nd.p, j - 1)]
    [] nd.k = "pairs" -> Sized(nd.p, nd.p)
    [] nd.k = "add" -> [j \in 1..Len(A) |-> A[j] + nd.p]
    [] nd.k = "take" -> Cut(A, nd.p)
    [] nd.k = "drop" -> LET L == ListOf(nd.c[1], N + nd.p) IN SubSeq(L, nd.p + 1, Len(L))
    [] nd.k = "cycle" -> IF A = <<>> THEN <<>> ELSE Times(A, N)
    [] nd.k = "concat" -> A \o B
    [] nd.k = "zip" -> [j \in 1..Min(Len(A), Len(B)) |-> A[j] - B[j]]
    [] nd.k = "blow" -> Each(A, nd.p)
    [] nd.k \in {"mod", "modm"} -> SelectSeq(up, LAMBDA x : x % nd.p = 0)
    [] nd.k = "while" -> SelectSeq(up, LAMBDA x : x < nd.p)
    [] nd.k = "after" -> SelectSeq(up, LAMBDA x : x >= nd.p), N)
===============================================================================
