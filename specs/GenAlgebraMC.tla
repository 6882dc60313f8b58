----------------------------- MODULE GenAlgebraMC -----------------------------
(* All generators of up to three levels; parts are called in order with fresh   *)
(* random states, choices are arbitrary; then any path through the shrinks.     *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS Wide, Sizes, Salts
VARIABLES ast, memo, cur, skip, salt, steps, phase
mvars == <<ast, memo, cur, skip, salt, steps, phase>>
Tries3 == 3
INSTANCE GenAlgebra WITH nodes <- ast, TryLimit <- Tries3
N(k, c, p, w) == [k |-> k, c |-> c, p |-> p, w |-> w]
Leaves == {N("leaf", <<>>, p, <<>>) : p \in 0..2} \cup {N("just", <<>>, 4, <<>>), N("elem", <<>>, 2, <<>>), N("elem", <<>>, 0, <<>>), N("selem", <<>>, 3, <<>>)}
Unary == {<<"map", 1>>, <<"map", 3>>, <<"maybe", 0>>, <<"noshrink", 0>>, <<"shrink", 0>>, <<"shrink", 1>>, <<"resize", 100>>, <<"scale", 2>>,
          <<"filter", 1>>, <<"filter", 2>>, <<"filter", 3>>}
Binary == {<<"tuple", 0>>, <<"mapcat", -1>>, <<"mapcat", 2>>, <<"oneof", 0>>, <<"sized", 0>>, <<"weighted", 0>>}
L0 == N("leaf", <<>>, 0, <<>>)
W(k) == IF k = "weighted" THEN <<0, 2>> ELSE <<>>
Asts == {<<N(u[1], <<2>>, u[2], <<>>), N(v[1], <<3>>, v[2], <<>>), f>> : u \in Unary, v \in Unary, f \in IF Wide THEN Leaves ELSE {L0}}
   \cup {<<N(u[1], <<2>>, u[2], <<>>), N(b[1], <<3, 4>>, b[2], W(b[1])), f, L0>> : u \in Unary, b \in Binary, f \in IF Wide THEN Leaves ELSE {L0}}
   \cup {<<N(b[1], <<2, 3>>, b[2], W(b[1])), f, N(u[1], <<4>>, u[2], <<>>), L0>> : u \in Unary, b \in Binary, f \in Leaves}
Init == /\ ast = <<>> /\ memo = <<>> /\ cur = 0 /\ skip = {} /\ salt = 0 /\ steps = 0 /\ phase = "ast"
Choose == /\ phase = "ast" /\ ast' \in Asts /\ salt' \in Salts /\ phase' = "root" /\ UNCHANGED <<memo, cur, skip, steps>>
Picks(n, z) == CASE ast[n].k = "elem" /\ ast[n].p > 0 -> 0..(ast[n].p - 1)
                 [] ast[n].k = "selem" /\ ast[n].p > 0 -> 0..Scaled(ast[n].p - 1, z)
                 [] OTHER -> {0}
Root == /\ phase = "root" /\ \E z \in Sizes : \E x \in Picks(1, z) :
             memo' = <<[n |-> 1, p |-> 0, s |-> 1, t |-> 1, a |-> 0, arg |-> 0, size |-> z, r |-> salt, pick |-> x]>>
        /\ phase' = "calls" /\ UNCHANGED <<ast, cur, skip, salt, steps>>
Tries(i) == LET J == {j \in 1..Len(memo) : memo[j].p = i} IN Cardinality(J)
(* parts of instance i that have to be called *)
Due(i) == LET nd == Node(i) IN
  CASE nd.k \in DepKinds -> IF Child(i, 1, 1, 0) = 0 THEN {<<1, 1, 0>>} ELSE {<<2, 1, a>> : a \in {a \in (0..3) \ {nd.p} : Child(i, 2, 1, a) = 0}}
    [] nd.k = "filter" -> LET t == Tries(i) IN
         IF t >= Tries3 THEN {}
         ELSE IF t = 0 THEN {<<1, 1, 0>>}
         ELSE LET v == V(Build(Child(i, 1, t, 0))) IN IF IsErr(v) \/ v[1] = "missing" \/ Pred(nd.p, v) THEN {} ELSE {<<1, t + 1, 0>>}
    [] nd.k = "maybe" -> IF i \in skip \/ Child(i, 1, 1, 0) # 0 THEN {} ELSE {<<1, 1, 0>>}
    [] nd.k = "oneof" -> IF FirstSlot(i) = 0 THEN {<<s, 1, 0>> : s \in 1..Len(nd.c)} ELSE {}
    [] nd.k = "weighted" -> IF FirstSlot(i) = 0 THEN {<<s, 1, 0>> : s \in {s \in 1..Len(nd.c) : nd.w[s] > 0}} ELSE {}
    [] nd.k = "sized" -> {<<s, 1, 0>> : s \in {s \in 1..(Scaled(Len(nd.c) - 1, memo[i].size) + 1) : Child(i, s, 1, 0) = 0}}
    [] OTHER -> {<<s, 1, 0>> : s \in {s \in 1..Len(nd.c) : Child(i, s, 1, 0) = 0}}
Pending == {i \in 1..Len(memo) : Due(i) # {}}
(* innermost first: a filter has to know its part's value *)
Turn == CHOOSE i \in Pending : \A j \in Pending : i >= j
Call == /\ phase = "calls" /\ Pending # {}
        /\ \E d \in Due(Turn) :
             LET i == Turn n == Node(i).c[d[1]] z == PartSize(i, d[2]) IN
             /\ Node(i).k \in {"oneof", "weighted", "sized"} \/ d = (CHOOSE e \in Due(i) : \A f \in Due(i) : e[1] < f[1] \/ (e[1] = f[1] /\ e[3] <= f[3]))
             /\ \E x \in Picks(n, z) :
                LET c == [n |-> n, p |-> i, s |-> d[1], t |-> d[2], a |-> d[3],
                          arg |-> IF Node(i).k \in DepKinds /\ d[1] = 2 THEN d[3] ELSE memo[i].arg,
                          size |-> z, r |-> salt + Len(memo), pick |-> x] IN
                Assert(CallOk(c), c) /\ memo' = Append(memo, c)
        /\ UNCHANGED <<ast, cur, skip, salt, steps, phase>>
Skip == /\ phase = "calls" /\ Pending # {} /\ Node(Turn).k = "maybe" /\ skip' = skip \cup {Turn}
        /\ UNCHANGED <<ast, memo, cur, salt, steps, phase>>
Ready == /\ phase = "calls" /\ Pending = {} /\ phase' = "walk" /\ cur' = Build(1) /\ UNCHANGED <<ast, memo, skip, salt, steps>>
Down == /\ phase = "walk" /\ \E k \in 1..Len(K(cur)) : cur' = K(cur)[k]
        /\ steps' = steps + 1 /\ UNCHANGED <<ast, memo, skip, salt, phase>>
Next == Choose \/ Root \/ Call \/ Skip \/ Ready \/ Down
Spec == Init /\ [][Next]_mvars
-------------------------------------------------------------------------------
(* what a generator may yield, whatever was drawn and however it was shrunk     *)
RECURSIVE Sat(_, _)
RECURSIVE MayFail(_, _)
Sat(n, v) == LET nd == ast[n] IN
  IF v[1] = "e" THEN MayFail(n, v) ELSE
  CASE nd.k = "leaf" -> v[1] = "i" /\ v[2] \in 0..5
    [] nd.k = "just" -> v = <<"i", nd.p>>
    [] nd.k \in {"elem", "selem"} -> v[1] = "i" /\ v[2] \in 0..(nd.p - 1)
    [] nd.k = "map" -> v[1] = "m" /\ v[2] = nd.p /\ Sat(nd.c[1], v[3])
    [] nd.k = "maybe" -> v = <<"n">> \/ (v[1] = "j" /\ Sat(nd.c[1], v[2]))
    [] nd.k \in TupleKinds -> v[1] = "t" /\ Len(v) = Len(nd.c) + 1 /\ \A j \in 1..Len(nd.c) : Sat(nd.c[j], v[j + 1])
    [] nd.k \in DepKinds -> Sat(nd.c[2], v)
    [] nd.k = "filter" -> Sat(nd.c[1], v) /\ Pred(nd.p, v)
    [] nd.k = "shrink" -> v[1] = "s" \/ Sat(nd.c[1], v)
    [] nd.k \in {"oneof", "weighted", "sized"} -> \E j \in 1..Len(nd.c) : (nd.k = "weighted" => nd.w[j] > 0) /\ Sat(nd.c[j], v)
    [] OTHER -> Sat(nd.c[1], v)
Errors(n) == LET nd == ast[n] IN
  CASE nd.k = "leaf" -> IF nd.p > 0 THEN {<<"e", "leaf">>} ELSE {}
    [] nd.k \in {"elem", "selem"} -> IF nd.p = 0 THEN {GF} ELSE {}
    [] nd.k = "map" -> IF nd.p = 3 THEN {Boom} ELSE {}
    [] nd.k \in DepKinds -> IF nd.p >= 0 THEN {Boom} ELSE {}
    [] nd.k = "filter" -> {GF}
    [] OTHER -> {}
MayFail(n, e) == e \in Errors(n) \/ \E j \in 1..Len(ast[n].c) : MayFail(ast[n].c[j], e)
Contract == phase = "walk" => V(cur)[1] # "missing" /\ Sat(1, V(cur))
ShrinksKnown == phase = "walk" => \A k \in 1..Len(K(cur)) : V(K(cur)[k])[1] # "missing"
(* a failure to generate has no shrinks *)
NoShrinksOfErr == (phase = "walk" /\ cur.t = "x") => K(cur) = <<>>
OneAtATime == (phase = "walk" /\ cur.t = "tup") =>
  \A k \in 1..Len(K(cur)) : Cardinality({j \in 1..Len(cur.ss) : K(cur)[k].ss[j] # cur.ss[j]}) = 1
NothingFirst == (phase = "walk" /\ cur.t = "jst") => V(K(cur)[1]) = <<"n">>
NoShrink == (phase = "walk" /\ ast[1].k = "noshrink") => K(cur) = <<>>
Terminates == steps <= 60
===============================================================================
