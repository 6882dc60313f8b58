------------------------------ MODULE GenAlgebra ------------------------------
(* Generator combinators (property C17).                                       *)
(*                                                                             *)
(* A generator is a tree of nodes [k, c, p, w]: kind, child nodes, parameter,  *)
(* weights. Running it calls its parts; each call is an instance               *)
(*    [n, p, s, t, a, size, r]: node n was called by instance p as its s-th    *)
(*    part, for the t-th time (filters try again), with argument a (dependent  *)
(*    parts), given that size and the random state named r.                    *)
(* What an instance yields is a term: its value V and its shrinks K, which are *)
(* terms again, are functions of the calls made so far.                        *)
(* Values: <<"i", n>> <<"t", v, ...>> <<"n">> <<"j", v>> <<"m", f, v>>         *)
(*   <<"s", n>> and errors <<"e", name>>                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT TryLimit         \* tries a filter makes: 100
VARIABLES nodes,         \* nodes of the generator under test
          memo           \* the calls, in order of first occurrence
Col == INSTANCE Collections

RECURSIVE Sum(_)
RECURSIVE SumFrom(_, _)
SumFrom(v, i) == IF i > Len(v) THEN 0 ELSE Sum(v[i]) + SumFrom(v, i + 1)
Sum(v) == CASE v[1] = "i" -> v[2] [] v[1] = "s" -> v[2] [] v[1] = "n" -> 0
            [] v[1] = "j" -> 1 + Sum(v[2]) [] v[1] = "m" -> v[2] + Sum(v[3])
            [] v[1] = "e" -> 0 [] OTHER -> SumFrom(v, 2)
IsErr(v) == v[1] = "e"
GF == <<"e", "GF">>
Boom == <<"e", "boom">>
LeafValue(n, a, r) == ((3 * n) + (5 * a) + (2 * r)) % 6
ArgOf(v) == Sum(v) % 4
(* functions the tests map with; the last one fails for some values *)
Fn(f, v) == IF f = 3 /\ (Sum(v) % 3) = 1 THEN Boom ELSE <<"m", f, v>>
Pred(p, v) == CASE p = 0 -> TRUE [] p = 1 -> (Sum(v) % 2) = 0 [] p = 2 -> (Sum(v) % 3) # 1 [] OTHER -> FALSE
(* custom shrinks; kind 1 fails for some values: then there are none *)
Custom(p, v) == LET n == Sum(v) IN
  IF n = 0 \/ (p = 1 /\ (n % 3) = 2) THEN <<>> ELSE IF n = 1 THEN << <<"s", 0>> >> ELSE << <<"s", 0>>, <<"s", n - 2>> >>
RECURSIVE Halves(_, _)
Halves(x, h) == IF h = 0 THEN <<>> ELSE <<x - h>> \o Halves(x, h \div 2)
TowardsZero(x) == Halves(x, x)
(* round(x * min(size, 100) / 100) *)
Scaled(x, size) == LET s == IF size > 100 THEN 100 ELSE size
                       y == x * s IN (y \div 100) + (IF (y % 100) >= 50 THEN 1 ELSE 0)

TupleKinds == {"tuple", "pair", "apply", "construct", "build", "unique", "shared"}
DepKinds == {"mapcat", "join"}
SameKinds == {"map", "cast", "maybe", "noshrink", "shrink", "lazy", "withsize", "named"}
-------------------------------------------------------------------------------
(* calls *)
Node(i) == nodes[memo[i].n]
(* i's child in slot s, try t, argument a; 0 if it was not called *)
Child(i, s, t, a) == LET M == {j \in 1..Len(memo) : memo[j].p = i /\ memo[j].s = s /\ memo[j].t = t /\ memo[j].a = a} IN
                     IF M = {} THEN 0 ELSE CHOOSE j \in M : TRUE
SlotsCalled(i) == {memo[j].s : j \in {j \in 1..Len(memo) : memo[j].p = i}}
FirstSlot(i) == LET J == {j \in 1..Len(memo) : memo[j].p = i} IN
                IF J = {} THEN 0 ELSE memo[CHOOSE j \in J : \A k \in J : j <= k].s
(* size a part is given *)
PartSize(i, t) == LET z == memo[i].size nd == Node(i) IN
  CASE nd.k = "resize" -> nd.p
    [] nd.k = "scale" -> (z * nd.p) \div 4
    [] nd.k = "filter" -> z + t - 1
    [] OTHER -> z
SlotOk(i, s, t, a) == LET nd == Node(i) IN
  /\ s \in 1..Len(nd.c)
  /\ IF nd.k = "filter" THEN t \in 1..TryLimit ELSE t = 1
  /\ IF nd.k \in DepKinds /\ s = 2 THEN a \in 0..3 ELSE a = 0
  /\ nd.k = "oneof" => SlotsCalled(i) \subseteq {s}
  /\ nd.k = "weighted" => nd.w[s] > 0 /\ SlotsCalled(i) \subseteq {s}
  /\ nd.k = "sized" => s - 1 <= Scaled(Len(nd.c) - 1, memo[i].size)
(* two parts get independent random states, except for different second stages *)
(* of the same dependent generator and different alternatives of one choice:   *)
(* at most one of them counts at a time                                        *)
RECURSIVE Path(_)
Path(c) == IF c.p = 0 THEN <<>> ELSE Append(Path(memo[c.p]), <<c.p, c.s, c.t, c.a>>)
Alternatives(c, d) == LET a == Path(c) b == Path(d)
                          D == {i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] # b[i]} IN
  IF D = {} THEN TRUE     \* one is part of the other
  ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN
       \/ a[i][2] = b[i][2] /\ a[i][3] = b[i][3]                        \* same slot, same try: other argument
       \/ Node(a[i][1]).k = "sized"
Independent(c) == \A j \in 1..Len(memo) : memo[j].r = c.r => Alternatives(memo[j], c)
PickOk(c) == LET nd == nodes[c.n] IN
  CASE nd.k = "elem" -> nd.p = 0 \/ c.pick \in 0..(nd.p - 1)
    [] nd.k = "selem" -> nd.p = 0 \/ c.pick \in 0..Scaled(nd.p - 1, c.size)
    [] OTHER -> c.pick = 0
(* a generator that makes a choice does not hand on the state it chose with:    *)
(* a nested one of the same kind would always choose alike                     *)
Choosing == {"oneof", "weighted", "sized", "maybe"}
FreshOk(c) == c.p > 0 => (Node(c.p).k \in Choosing => c.r # memo[c.p].r)
CallOk(c) == /\ FreshOk(c)
             /\ IF Len(memo) = 0 THEN c.p = 0 /\ c.n = 1
                ELSE /\ c.p \in 1..Len(memo) /\ SlotOk(c.p, c.s, c.t, c.a)
                     /\ Child(c.p, c.s, c.t, c.a) = 0
                     /\ c.n = Node(c.p).c[c.s]
                     /\ c.arg = IF Node(c.p).k \in DepKinds /\ c.s = 2 THEN c.a ELSE memo[c.p].arg
                     /\ c.size = PartSize(c.p, c.t)
             /\ PickOk(c)
             /\ Independent(c)
-------------------------------------------------------------------------------
(* terms *)
RECURSIVE Build(_)
RECURSIVE V(_)
RECURSIVE K(_)
RECURSIVE FilterTry(_, _)
Missing == [t |-> "missing"]
Err(e) == [t |-> "x", e |-> e]
Part(i, s) == LET j == Child(i, s, 1, 0) IN IF j = 0 THEN Missing ELSE Build(j)
Second(i, a) == LET nd == Node(i) j == Child(i, 2, 1, a) IN
                IF a = nd.p THEN Err(Boom) ELSE IF j = 0 THEN Missing ELSE Build(j)
FilterTry(i, t) ==
  IF t > TryLimit THEN Err(GF)
  ELSE LET j == Child(i, 1, t, 0) IN
       IF j = 0 THEN Missing
       ELSE LET s == Build(j) v == V(s) IN
            IF v[1] = "missing" THEN Missing
            ELSE IF IsErr(v) THEN Err(v)
            ELSE IF Pred(Node(i).p, v) THEN [t |-> "flt", p |-> Node(i).p, s |-> s]
            ELSE FilterTry(i, t + 1)
Build(i) == LET nd == Node(i) IN
  CASE nd.k = "leaf" -> IF nd.p = 1 THEN Err(<<"e", "leaf">>)
                        ELSE [t |-> "i", v |-> LeafValue(memo[i].n, memo[i].arg, memo[i].r), bad |-> nd.p = 2]
    [] nd.k = "just" -> [t |-> "c", v |-> <<"i", nd.p>>]
    [] nd.k = "elem" -> IF nd.p = 0 THEN Err(GF) ELSE [t |-> "c", v |-> <<"i", memo[i].pick>>]
    [] nd.k = "selem" -> IF nd.p = 0 THEN Err(GF) ELSE [t |-> "se", v |-> memo[i].pick]
    [] nd.k \in {"map"} -> [t |-> "map", p |-> nd.p, s |-> Part(i, 1)]
    [] nd.k \in {"cast", "lazy", "withsize", "named", "resize", "scale"} -> Part(i, 1)
    [] nd.k \in TupleKinds -> [t |-> "tup", ss |-> [j \in 1..Len(nd.c) |-> Part(i, j)]]
    [] nd.k \in DepKinds -> [t |-> "mc", i |-> i, s |-> Part(i, 1)]
    [] nd.k = "filter" -> FilterTry(i, 1)
    [] nd.k = "maybe" -> IF Child(i, 1, 1, 0) = 0 THEN [t |-> "c", v |-> <<"n">>] ELSE [t |-> "jst", s |-> Part(i, 1)]
    [] nd.k = "noshrink" -> [t |-> "nosh", s |-> Part(i, 1)]
    [] nd.k = "shrink" -> [t |-> "post", p |-> nd.p, s |-> Part(i, 1)]
    [] nd.k = "oneof" -> IF FirstSlot(i) = 0 THEN Missing ELSE Part(i, FirstSlot(i))
    [] nd.k = "weighted" -> IF \A j \in 1..Len(nd.w) : nd.w[j] = 0 THEN Err(GF)
                            ELSE IF FirstSlot(i) = 0 THEN Missing ELSE Part(i, FirstSlot(i))
    [] nd.k = "sized" -> IF FirstSlot(i) = 0 THEN Missing ELSE [t |-> "so", i |-> i, x |-> FirstSlot(i) - 1]
(* value *)
V(s) ==
  CASE s.t = "missing" -> <<"missing">>
    [] s.t = "x" -> s.e
    [] s.t = "i" -> IF s.bad /\ s.v = 2 THEN <<"e", "leaf">> ELSE <<"i", s.v>>
    [] s.t = "c" -> s.v
    [] s.t = "se" -> <<"i", s.v>>
    [] s.t = "map" -> LET v == V(s.s) IN IF v[1] \in {"e", "missing"} THEN v ELSE Fn(s.p, v)
    [] s.t = "tup" -> LET vs == [j \in 1..Len(s.ss) |-> V(s.ss[j])]
                          X == {j \in 1..Len(vs) : vs[j][1] = "e"}   \* then the others need not be evaluated
                          B == IF X # {} THEN X ELSE {j \in 1..Len(vs) : vs[j][1] = "missing"} IN
                      IF B # {} THEN vs[CHOOSE j \in B : \A k \in B : j <= k] ELSE <<"t">> \o vs
    [] s.t = "mc" -> LET v == V(s.s) IN IF v[1] \in {"e", "missing"} THEN v ELSE V(Second(s.i, ArgOf(v)))
    [] s.t = "flt" -> V(s.s)
    [] s.t = "jst" -> LET v == V(s.s) IN IF v[1] \in {"e", "missing"} THEN v ELSE <<"j", v>>
    [] s.t = "nosh" -> V(s.s)
    [] s.t = "post" -> V(s.s)
    [] s.t = "rec" -> s.v
    [] s.t = "so" -> V(Part(s.i, s.x + 1))
(* shrinks *)
RECURSIVE KeepFrom(_, _, _)
KeepFrom(p, ks, j) == IF j > Len(ks) THEN <<>>
  ELSE LET v == V(ks[j]) IN
       IF IsErr(v) THEN <<>>           \* a shrink that cannot be judged ends the list
       ELSE (IF v[1] # "missing" /\ ~Pred(p, v) THEN <<>> ELSE <<[t |-> "flt", p |-> p, s |-> ks[j]]>>) \o KeepFrom(p, ks, j + 1)
RECURSIVE TupleFrom(_, _)
TupleFrom(s, j) == IF j > Len(s.ss) THEN <<>>
  ELSE LET ks == K(s.ss[j]) IN
       [i \in 1..Len(ks) |-> [s EXCEPT !.ss[j] = ks[i]]] \o TupleFrom(s, j + 1)
K(s) ==
  CASE s.t \in {"missing", "x", "c", "nosh"} -> <<>>
    [] s.t = "i" -> LET cs == Col!Children(s.v) IN [j \in 1..Len(cs) |-> [s EXCEPT !.v = cs[j]]]
    [] s.t = "se" -> LET cs == TowardsZero(s.v) IN [j \in 1..Len(cs) |-> [s EXCEPT !.v = cs[j]]]
    [] s.t = "map" -> LET ks == K(s.s) IN [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]]
    [] s.t = "tup" -> TupleFrom(s, 1)
    [] s.t = "mc" -> LET v == V(s.s) ks == K(s.s) IN
         IF IsErr(v) \/ ArgOf(v) = Node(s.i).p THEN <<>>      \* no second stage, nothing is known
         ELSE [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]] \o K(Second(s.i, ArgOf(v)))
    [] s.t = "flt" -> KeepFrom(s.p, K(s.s), 1)
    [] s.t = "jst" -> LET ks == K(s.s) IN <<[t |-> "c", v |-> <<"n">>]>> \o [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]]
    [] s.t = "post" -> LET v == V(s.s) ks == K(s.s) IN
         IF IsErr(v) THEN <<>>
         ELSE LET cs == Custom(s.p, v) IN
              [j \in 1..Len(ks) |-> [s EXCEPT !.s = ks[j]]] \o [j \in 1..Len(cs) |-> [t |-> "rec", p |-> s.p, v |-> cs[j]]]
    [] s.t = "rec" -> LET cs == Custom(s.p, s.v) IN [j \in 1..Len(cs) |-> [s EXCEPT !.v = cs[j]]]
    [] s.t = "so" -> LET cs == TowardsZero(s.x) IN
         [j \in 1..Len(cs) |-> [s EXCEPT !.x = cs[j]]] \o K(Part(s.i, s.x + 1))
===============================================================================
