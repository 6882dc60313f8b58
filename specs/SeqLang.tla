-------------------------------- MODULE SeqLang --------------------------------
(* Lazy sequences (property C12): what each sequence is as a list (Den) and the  *)
(* machine that yields it one element at a time (Pull).                          *)
(*                                                                               *)
(* An expression is a tree of nodes [k, c, p, q, v]: kind, children, parameters, *)
(* values. The dependent kinds mapcat and join instantiate their second child    *)
(* with an argument, which changes the values of its leafs.                      *)
(* Computing an element of a "leaf", or applying one of the functions below, is  *)
(* an evaluation; some of them fail.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES nodes
Ex == <<"ex">>
End == <<"end">>
Val(x) == <<"v", x>>
LeafV(n, a, i) == (n + (3 * a) + (2 * i)) % 10
Fun(f, x) == CASE f = 0 -> Val((x + 1) % 50)
               [] f = 1 -> Val((2 * x) % 23)
               [] f = 2 -> IF (x % 5) = 3 THEN Ex ELSE Val((x + 2) % 50)
               [] OTHER -> Val(x % 3)
Pred(p, x) == CASE p = 0 -> Val(1)
                [] p = 1 -> Val(IF (x % 2) = 0 THEN 1 ELSE 0)
                [] p = 2 -> Val(IF x < 6 THEN 1 ELSE 0)
                [] p = 3 -> IF (x % 5) = 4 THEN Ex ELSE Val(x % 2)
                [] OTHER -> Val(0)
Zip2(p, x, y) == IF p = 1 /\ ((x + y) % 7) = 6 THEN Ex ELSE Val(((3 * x) + y) % 50)
Zip3(p, x, y, z) == IF p = 1 /\ ((x + y + z) % 7) = 6 THEN Ex ELSE Val(((5 * x) + (3 * y) + z) % 50)
(* nothing is <<"n">> *)
MayBe(f, x) == IF f = 1 /\ (x % 7) = 6 THEN Ex ELSE IF (x % 2) = 1 THEN <<"n">> ELSE Val(x \div 2)
Arg(p, x) == IF p = 1 /\ (x % 6) = 5 THEN Ex ELSE Val(x % 4)
-------------------------------------------------------------------------------
(* as lists. More means that elements beyond the ones given are not known        *)
(* (infinite sequences are cut at Bound elements)                                *)
CONSTANT Bound
L(l, more) == [l |-> l, more |-> more]
RECURSIVE Den(_, _)
RECURSIVE MapL(_, _, _)
MapL(f, l, i) == IF i > Len(l) THEN <<>> ELSE IF Fun(f, l[i]) = Ex THEN <<>> ELSE <<Fun(f, l[i])[2]>> \o MapL(f, l, i + 1)
RECURSIVE FilterL(_, _, _)      \* [l, ex]
FilterL(p, l, i) == IF i > Len(l) THEN [l |-> <<>>, ex |-> FALSE]
  ELSE IF Pred(p, l[i]) = Ex THEN [l |-> <<>>, ex |-> TRUE]
  ELSE LET R == FilterL(p, l, i + 1) IN IF Pred(p, l[i]) = Val(1) THEN [R EXCEPT !.l = <<l[i]>> \o @] ELSE R
RECURSIVE MayBeL(_, _, _)
MayBeL(f, l, i) == IF i > Len(l) THEN [l |-> <<>>, ex |-> FALSE]
  ELSE IF MayBe(f, l[i]) = Ex THEN [l |-> <<>>, ex |-> TRUE]
  ELSE LET R == MayBeL(f, l, i + 1) IN IF MayBe(f, l[i]) = <<"n">> THEN R ELSE [R EXCEPT !.l = <<MayBe(f, l[i])[2]>> \o @]
RECURSIVE While(_, _, _)        \* length of the longest prefix for which p is true
While(p, l, i) == IF i > Len(l) THEN 0 ELSE IF Pred(p, l[i]) = Val(1) THEN 1 + While(p, l, i + 1) ELSE 0
RECURSIVE IterateL(_, _, _)
IterateL(f, x, n) == IF n = 0 THEN [l |-> <<>>, more |-> TRUE]
  ELSE IF Fun(f, x) = Ex THEN [l |-> <<x>>, more |-> FALSE]
  ELSE LET R == IterateL(f, Fun(f, x)[2], n - 1) IN [R EXCEPT !.l = <<x>> \o @]
RECURSIVE LeafL(_, _, _)
LeafL(n, a, i) == IF i >= nodes[n].p \/ i + 1 = nodes[n].q THEN <<>> ELSE <<LeafV(n, a, i)>> \o LeafL(n, a, i + 1)
RECURSIVE ConcatL(_, _, _)
ConcatL(cs, a, i) == IF i > Len(cs) THEN L(<<>>, FALSE)
  ELSE LET D == Den(cs[i], a) IN
       IF D.more THEN D ELSE LET R == ConcatL(cs, a, i + 1) IN L(D.l \o R.l, R.more)
RECURSIVE JoinL(_, _, _, _)
JoinL(p, c, D, i) == IF i > Len(D.l) THEN L(<<>>, D.more)
  ELSE IF Arg(p, D.l[i]) = Ex THEN L(<<>>, FALSE)
  ELSE LET X == Den(c, Arg(p, D.l[i])[2]) IN
       IF X.more THEN X ELSE LET R == JoinL(p, c, D, i + 1) IN L(X.l \o R.l, R.more)
RECURSIVE CycleL(_, _)
CycleL(l, n) == IF n = 0 THEN <<>> ELSE l \o CycleL(l, n - 1)
RECURSIVE SubrL(_, _, _)        \* larger first, then by start
SubrL(a, b, n) == IF n = 0 THEN <<>>
  ELSE [i \in 1..(b - a - n + 1) |-> (100 * (a + i - 1)) + (a + i - 1 + n)] \o SubrL(a, b, n - 1)
Min2(a, b) == IF a < b THEN a ELSE b
(* several lists side by side, up to the shortest *)
Ends(ds) == LET m == CHOOSE m \in 0..1000 : (\E i \in 1..Len(ds) : Len(ds[i].l) = m) /\ \A i \in 1..Len(ds) : Len(ds[i].l) >= m IN
            [n |-> m, more |-> \A i \in 1..Len(ds) : Len(ds[i].l) = m => ds[i].more]
RECURSIVE ZipL(_, _, _, _)
ZipL(p, ds, i, n) == IF i > n THEN <<>>
  ELSE LET x == IF Len(ds) = 2 THEN Zip2(p, ds[1].l[i], ds[2].l[i]) ELSE Zip3(p, ds[1].l[i], ds[2].l[i], ds[3].l[i]) IN
       IF x = Ex THEN <<>> ELSE <<x[2]>> \o ZipL(p, ds, i + 1, n)
Den(n, a) == LET nd == nodes[n] D == Den(nd.c[1], a) IN
  CASE nd.k = "leaf" -> L(LeafL(n, a, 0), FALSE)
    [] nd.k \in {"just", "cont"} -> L(nd.v, FALSE)
    [] nd.k = "repeat" -> L([i \in 1..Bound |-> nd.p], TRUE)
    [] nd.k = "index" -> L([i \in 1..Bound |-> i - 1], TRUE)
    [] nd.k = "iterate" -> IterateL(nd.q, nd.p, Bound)
    [] nd.k = "range" -> L(IF nd.p <= nd.q THEN [i \in 1..(nd.q - nd.p) |-> nd.p + i - 1] ELSE [i \in 1..(nd.p - nd.q) |-> nd.p - i + 1], FALSE)
    [] nd.k = "subr" -> L(SubrL(nd.p, nd.q, nd.q - nd.p), FALSE)
    [] nd.k = "take" -> IF Len(D.l) >= nd.p THEN L(SubSeq(D.l, 1, nd.p), FALSE) ELSE D
    [] nd.k = "drop" -> L(SubSeq(D.l, nd.p + 1, Len(D.l)), D.more)
    [] nd.k = "map" -> LET m == MapL(nd.p, D.l, 1) IN L(m, D.more /\ Len(m) = Len(D.l))
    [] nd.k = "cast" -> D
    [] nd.k = "filter" -> LET R == FilterL(nd.p, D.l, 1) IN L(R.l, D.more /\ ~R.ex)
    [] nd.k = "mapmaybe" -> LET R == MayBeL(nd.p, D.l, 1) IN L(R.l, D.more /\ ~R.ex)
    [] nd.k = "takewhile" -> LET w == While(nd.p, D.l, 1) IN L(SubSeq(D.l, 1, w), D.more /\ w = Len(D.l))
    [] nd.k = "dropwhile" -> LET w == While(nd.p, D.l, 1) IN
         IF w < Len(D.l) /\ Pred(nd.p, D.l[w + 1]) = Ex THEN L(<<>>, FALSE) ELSE L(SubSeq(D.l, w + 1, Len(D.l)), D.more)
    [] nd.k = "concat" -> ConcatL(nd.c, a, 1)
    [] nd.k \in {"mapcat", "join"} -> JoinL(nd.p, nd.c[2], D, 1)
    [] nd.k = "cycle" -> IF D.more THEN D ELSE L(CycleL(D.l, Bound), TRUE)
    [] nd.k = "zip" -> LET ds == [i \in 1..Len(nd.c) |-> Den(nd.c[i], a)]
                           e == Ends(ds)
                           z == ZipL(nd.p, ds, 1, e.n) IN L(z, e.more /\ Len(z) = e.n)
-------------------------------------------------------------------------------
(* as a machine. State [k, n, a, i, x, ss]: kind ("empty" when it has ended for  *)
(* good), node, argument, counter, value, parts.                                 *)
(* Pull gives [r, s, ev]: an element or the end, the state after, evaluations    *)
(* made. A failing evaluation ends the sequence it happened in.                  *)
Empty == [k |-> "empty", n |-> 0, a |-> 0, i |-> 0, x |-> 0, ss |-> <<>>]
CONSTANT Fuel
NoFuel == <<"fuel">>
RECURSIVE Mk(_, _)
Mk(n, a) == LET nd == nodes[n] IN
  [k |-> nd.k, n |-> n, a |-> a, i |-> 0, x |-> nd.p,
   ss |-> CASE nd.k \in {"mapcat", "join"} -> <<Mk(nd.c[1], a), Empty>>
            [] nd.k = "cycle" -> <<Mk(nd.c[1], a), Empty>>
            [] nd.k = "subr" -> <<>>
            [] OTHER -> [j \in 1..Len(nd.c) |-> Mk(nd.c[j], a)]]
R(r, s, ev) == [r |-> r, s |-> s, ev |-> ev]
RECURSIVE Pull(_)
RECURSIVE Raw(_)
RECURSIVE Loop(_, _, _)
Pull(s) == LET x == Raw(s) IN IF x.r = Ex THEN R(End, Empty, x.ev) ELSE x
(* apply f to what the only part gives *)
Ev(s, x) == <<s.n, s.a, x>>
Raw(s) == LET nd == nodes[s.n] IN
  CASE s.k = "empty" -> R(End, s, <<>>)
    [] s.k = "leaf" -> IF s.i >= nd.p THEN R(End, s, <<>>)
                       ELSE R(IF s.i + 1 = nd.q THEN Ex ELSE Val(LeafV(s.n, s.a, s.i)), [s EXCEPT !.i = @ + 1], <<Ev(s, s.i)>>)
    [] s.k \in {"just", "cont"} -> IF s.i = Len(nd.v) THEN R(End, s, <<>>) ELSE R(Val(nd.v[s.i + 1]), [s EXCEPT !.i = @ + 1], <<>>)
    [] s.k = "repeat" -> R(Val(nd.p), s, <<>>)
    [] s.k = "index" -> R(Val(s.i), [s EXCEPT !.i = @ + 1], <<>>)
    [] s.k = "iterate" -> IF s.i = 0 THEN R(Val(s.x), [s EXCEPT !.i = 1], <<>>)
                          ELSE LET y == Fun(nd.q, s.x) IN
                               IF y = Ex THEN R(Ex, s, <<Ev(s, s.x)>>) ELSE R(y, [s EXCEPT !.x = y[2]], <<Ev(s, s.x)>>)
    [] s.k = "range" -> IF s.x = nd.q THEN R(End, s, <<>>) ELSE R(Val(s.x), [s EXCEPT !.x = IF s.x < nd.q THEN @ + 1 ELSE @ - 1], <<>>)
    [] s.k = "subr" -> LET l == SubrL(nd.p, nd.q, nd.q - nd.p) IN
                       IF s.i = Len(l) THEN R(End, s, <<>>) ELSE R(Val(l[s.i + 1]), [s EXCEPT !.i = @ + 1], <<>>)
    [] s.k = "take" -> IF s.i = nd.p THEN R(End, s, <<>>)
                       ELSE LET y == Pull(s.ss[1]) IN R(y.r, [s EXCEPT !.i = @ + 1, !.ss = <<y.s>>], y.ev)
    [] s.k \in {"drop", "dropwhile", "filter", "mapmaybe", "mapcat", "join", "cycle"} -> Loop(s, <<>>, Fuel)
    [] s.k = "takewhile" -> LET y == Pull(s.ss[1]) IN
         IF y.r[1] # "v" THEN R(y.r, Empty, y.ev)
         ELSE LET p == Pred(nd.p, y.r[2]) e == Append(y.ev, Ev(s, y.r[2])) IN
              IF p = Val(1) THEN R(y.r, [s EXCEPT !.ss = <<y.s>>], e) ELSE R(End, Empty, e)
    [] s.k \in {"map", "cast"} -> LET y == Pull(s.ss[1]) IN
         IF y.r[1] # "v" THEN R(y.r, Empty, y.ev)
         ELSE IF s.k = "cast" THEN R(y.r, [s EXCEPT !.ss = <<y.s>>], y.ev)
         ELSE R(Fun(nd.p, y.r[2]), [s EXCEPT !.ss = <<y.s>>], Append(y.ev, Ev(s, y.r[2])))
    [] s.k = "concat" -> LET i == s.i + 1 IN
         IF i > Len(s.ss) THEN R(End, s, <<>>)
         ELSE LET y == Pull(s.ss[i]) IN
              IF y.r # End THEN R(y.r, [s EXCEPT !.ss[i] = y.s], y.ev)
              ELSE LET z == Raw([s EXCEPT !.i = i, !.ss[i] = y.s]) IN R(z.r, z.s, y.ev \o z.ev)
    [] s.k = "zip" ->
         LET ys == [i \in 1..Len(s.ss) |-> Pull(s.ss[i])]
             ev == ys[1].ev \o ys[2].ev \o (IF Len(ys) = 3 THEN ys[3].ev ELSE <<>>) IN
         IF \E i \in 1..Len(ys) : ys[i].r = NoFuel THEN R(NoFuel, Empty, ev)
         ELSE IF \E i \in 1..Len(ys) : ys[i].r = End THEN R(End, Empty, ev)
         ELSE LET in == [i \in 1..Len(ys) |-> ys[i].r[2]]
                  z == IF Len(in) = 2 THEN Zip2(nd.p, in[1], in[2]) ELSE Zip3(nd.p, in[1], in[2], in[3]) IN
              R(z, [s EXCEPT !.ss = [i \in 1..Len(ys) |-> ys[i].s]], Append(ev, <<s.n, s.a, in>>))
Loop(s, ev, fuel) == LET nd == nodes[s.n] IN
  IF fuel = 0 THEN R(NoFuel, Empty, ev)
  ELSE IF s.k \in {"mapcat", "join", "cycle"} THEN
    LET y == Pull(s.ss[2]) e1 == ev \o y.ev IN
    IF y.r # End THEN R(y.r, [s EXCEPT !.ss[2] = y.s], e1)
    ELSE IF s.k = "cycle" THEN Loop([s EXCEPT !.ss[2] = s.ss[1]], e1, fuel - 1)
    ELSE LET z == Pull(s.ss[1]) e2 == e1 \o z.ev IN
         IF z.r[1] # "v" THEN R(z.r, Empty, e2)
         ELSE LET arg == Arg(nd.p, z.r[2]) e3 == Append(e2, Ev(s, z.r[2])) IN
              IF arg # Ex THEN Loop([s EXCEPT !.ss = <<z.s, Mk(nd.c[2], arg[2])>>], e3, fuel - 1)
              ELSE IF s.k = "mapcat" THEN R(Ex, s, e3)
              ELSE R(End, Empty, e3)
  ELSE
    LET y == Pull(s.ss[1]) t == [s EXCEPT !.ss = <<y.s>>] e == ev \o y.ev IN
    IF y.r[1] # "v" THEN R(y.r, Empty, e)
    ELSE LET x == y.r[2] f == Append(e, Ev(s, x)) IN
      CASE s.k = "drop" -> IF s.i < nd.p THEN Loop([t EXCEPT !.i = @ + 1], e, fuel - 1) ELSE R(y.r, t, e)
        [] s.k = "dropwhile" -> IF s.i = 1 THEN R(y.r, t, e)
                                ELSE IF Pred(nd.p, x) = Ex THEN R(Ex, t, f)
                                ELSE IF Pred(nd.p, x) = Val(1) THEN Loop(t, f, fuel - 1) ELSE R(y.r, [t EXCEPT !.i = 1], f)
        [] s.k = "filter" -> IF Pred(nd.p, x) = Ex THEN R(Ex, t, f)
                             ELSE IF Pred(nd.p, x) = Val(1) THEN R(y.r, t, f) ELSE Loop(t, f, fuel - 1)
        [] s.k = "mapmaybe" -> LET m == MayBe(nd.p, x) IN
                               IF m = <<"n">> THEN Loop(t, f, fuel - 1) ELSE R(m, t, f)
(* everything that is left: [l, ok] *)
RECURSIVE Rest(_, _)
Rest(s, n) == IF n = 0 THEN [l |-> <<>>, ok |-> FALSE]
  ELSE LET y == Pull(s) IN
       IF y.r = End THEN [l |-> <<>>, ok |-> TRUE]
       ELSE IF y.r = NoFuel THEN [l |-> <<>>, ok |-> FALSE]
       ELSE LET X == Rest(y.s, n - 1) IN [X EXCEPT !.l = <<y.r[2]>> \o @]
===============================================================================
