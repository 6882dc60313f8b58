----------------------------- MODULE LongSeqTrace -----------------------------
(* cfg.nodes: the expression.                                                     *)
(* read [n, at, ended]   n elements were read, some of them: [index, value]; copies*)
(*                       were read, too, and one of them went on in its place      *)
(* whole [n, len, last, each, iter]  what the operations on whole sequences give   *)
(*                       for it cut after n elements                               *)
(* at [i, r], has [x, n, r]                                                        *)
(* pred [n, i, all, any]  all: no element but the i-th fails the predicate (which  *)
(*                       counts); any: no other one satisfies its opposite         *)
(* eq [n, m, r, ne]      the first n elements against the first m                  *)
EXTENDS VT
VARIABLES sid, l
tvars == <<sid, l>>
S == Scenarios[sid]
TNodes == S.cfg.nodes
INSTANCE LongSeq WITH nodes <- TNodes, Inf <- 1000000000
E == S.ev[l]
At(e) == l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
N == TLCEval(LenOf(1))
Cutn(n) == IF n < N THEN n ELSE N
TRead == /\ At("read")
         /\ E.n = Cutn(E.asked) /\ E.ended = (E.n < E.asked)
         /\ \A j \in 1..Len(E.at) : E.at[j][1] < N /\ AtOf(1, E.at[j][1]) = E.at[j][2]
TWhole == /\ At("whole")
          /\ LET c == Cutn(E.n) IN
             /\ E.len = c /\ E.each = c /\ E.iter = c
             /\ E.last = IF c = 0 THEN <<>> ELSE <<AtOf(1, c - 1)>>
TAt == At("at") /\ E.r = IF E.i < N THEN <<AtOf(1, E.i)>> ELSE <<>>
TPred == At("pred") /\ (E.any = (E.i < Cutn(E.n))) /\ E.all = ~E.any
(* E.x is the value of the i-th element, E.found is whether it is there *)
THas == At("has") /\ (E.i < Cutn(E.n) => (E.x = AtOf(1, E.i)) /\ E.r)
TEq == At("eq") /\ E.r = (Cutn(E.n) = Cutn(E.m)) /\ E.ne = ~E.r
Init0 == sid \in 1..Len(Scenarios) /\ l = 1
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED sid
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TRead \/ TWhole \/ TAt \/ TPred \/ THas \/ TEq \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
