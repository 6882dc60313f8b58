------------------------------ MODULE RandomTrace ------------------------------
(* Generators are handles; numbers and keys are sequences of 16-bit limbs.       *)
(* new [h, key] (cfg.keys), split [h, to], next [h, v], copy [h, to]             *)
(* put [h, key, path, n]  decoded from bytes that describe this place            *)
(* save [h, to, same]     encoded and decoded again into to                      *)
(* cmp [h, g, eq, ne, lt, gt, hash]  comparison; hash: the hashes are equal       *)
(* order [hs, lt, eq]     for each of hs the ones it is less than, equal to       *)
EXTENDS VT, Word64, RandomTree
VARIABLES sid, l, gs, drawn
tvars == <<sid, l, gs, drawn>>
S == Scenarios[sid]
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Nil == [p |-> Place(0, <<>>, Zero64), w |-> FALSE]
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ gs = [i \in 1..S.cfg.handles |-> Nil] /\ drawn = <<>>
G(key, path, n) == [p |-> Place(key, path, n), w |-> FALSE]
TNew == At("new") /\ gs' = [gs EXCEPT ![E.h] = G(E.key, <<>>, Zero64)] /\ UNCHANGED drawn
TPut == At("put") /\ gs' = [gs EXCEPT ![E.h] = G(E.key, E.path, E.n)] /\ UNCHANGED drawn
TSplit == /\ At("split") /\ gs[E.h].p.n = Zero64
          /\ LET p == gs[E.h].p IN
             gs' = [gs EXCEPT ![E.h] = G(p.key, Append(p.path, 0), Zero64), ![E.to] = G(p.key, Append(p.path, 1), Zero64)]
          /\ UNCHANGED drawn
(* w: went round the counter, where equality is not looked at                     *)
Step(g) == IF g.p.n = Max64 THEN [p |-> Place(g.p.key, Append(g.p.path, 1), Zero64), w |-> TRUE]
           ELSE [g EXCEPT !.p.n = Add(@, One64)]
TDraw == /\ At("next")
         /\ LET p == gs[E.h].p IN
            /\ \A i \in 1..Len(drawn) : LET d == drawn[i] IN
                 IF d.p = p THEN d.v = E.v ELSE (Related(d.p, p) \/ d.v # E.v) = TRUE
            /\ drawn' = (IF \E i \in 1..Len(drawn) : drawn[i].p = p THEN drawn ELSE Append(drawn, [p |-> p, v |-> E.v]))
            /\ gs' = [gs EXCEPT ![E.h] = Step(@)]
TCopy == At("copy") /\ gs' = [gs EXCEPT ![E.to] = gs[E.h]] /\ UNCHANGED drawn
TSave == /\ At("save") /\ (E.same = TRUE \/ gs[E.h].w) /\ gs' = [gs EXCEPT ![E.to] = gs[E.h]] /\ UNCHANGED drawn
TCmp == /\ At("cmp")
        /\ LET a == gs[E.h] b == gs[E.g] IN
             a.w \/ b.w \/ /\ E.eq = (a.p = b.p)
                           /\ (a.p = b.p => E.hash)
        /\ E.ne = ~E.eq /\ Cardinality({i \in 1..3 : <<E.eq, E.lt, E.gt>>[i]}) = 1
        /\ UNCHANGED <<gs, drawn>>
(* a strict total order, the same with equality as cmp                           *)
TOrder == /\ At("order")
          /\ LET Below == [i \in 1..Len(E.hs) |-> {E.lt[i][j] : j \in 1..Len(E.lt[i])}]
                 Same == [i \in 1..Len(E.hs) |-> {E.eq[i][j] : j \in 1..Len(E.eq[i])}]
                 N == 1..Len(E.hs) IN
             /\ \A i, j \in N : Cardinality({k \in 1..3 : <<E.hs[j] \in Below[i], E.hs[j] \in Same[i], E.hs[i] \in Below[j]>>[k]}) = 1
             /\ \A i, j \in N : E.hs[j] \in Below[i] => (Below[j] \subseteq Below[i] /\ Below[i] # Below[j])
             /\ \A i, j \in N : E.hs[j] \in Same[i] => (Below[i] = Below[j] /\ Same[i] = Same[j])
             /\ \A i, j \in N : (gs[E.hs[i]].w \/ gs[E.hs[j]].w \/ ((E.hs[j] \in Same[i]) = (gs[E.hs[i]].p = gs[E.hs[j]].p))) = TRUE
          /\ UNCHANGED <<gs, drawn>>
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<sid, gs, drawn>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TNew \/ TPut \/ TSplit \/ TDraw \/ TCopy \/ TSave \/ TCmp \/ TOrder \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
