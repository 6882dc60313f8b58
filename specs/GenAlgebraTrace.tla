---------------------------- MODULE GenAlgebraTrace ----------------------------
(* cfg: nodes, size                                                             *)
(* call [..]: an instance not seen before, or seen with other parameters        *)
(* node [v, kids, more]: value of the current shrinkable and of its shrinks,    *)
(*   in order (more: only that many of them)                                    *)
(* down [i]: on to the i-th shrink                                              *)
EXTENDS VT
VARIABLES sid, l, memo, cur
tvars == <<sid, l, memo, cur>>
S == Scenarios[sid]
C == S.cfg
TNodes == C.nodes
INSTANCE GenAlgebra WITH nodes <- TNodes, TryLimit <- 100
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ memo = <<>> /\ cur = [t |-> "none"]
CallRec == [n |-> E.n, p |-> E.p, s |-> E.s, t |-> E.t, a |-> E.a, arg |-> E.arg, size |-> E.size, r |-> E.r, pick |-> E.pick]
TCall == /\ At("call") /\ E.i = Len(memo) + 1 /\ (memo = <<>> => E.size = C.size) /\ CallOk(CallRec)
         /\ memo' = Append(memo, CallRec) /\ UNCHANGED cur
Cur == IF cur.t = "none" THEN Build(1) ELSE cur
TAtNode == /\ At("node")
           /\ LET c == Cur ks == TLCEval(K(c)) IN
                /\ E.v = V(c)
                /\ IF E.more THEN Len(E.kids) <= Len(ks) ELSE Len(E.kids) = Len(ks)
                /\ \A j \in 1..Len(E.kids) : E.kids[j] = V(ks[j])
                /\ cur' = c
           /\ UNCHANGED memo
TDown == At("down") /\ cur' = K(cur)[E.i] /\ UNCHANGED memo
TEnd == l = Len(S.ev) + 1 /\ cur.t # "none" /\ l' = l + 1 /\ UNCHANGED <<sid, memo, cur>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TCall \/ TAtNode \/ TDown \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
