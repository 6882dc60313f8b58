---------------------------- MODULE ShrinkTreeTrace ----------------------------
(* cfg: nodes, root (the expression), other (the one compared with)               *)
(* tree [t]: the complete tree; eq [eq, ne, rev]; all [p, res, asked];             *)
(* immediate [vs]; min [p, v, n, asked]; walk [path, found, t]                     *)
EXTENDS VT
VARIABLES sid, l
tvars == <<sid, l>>
S == Scenarios[sid]
TNodes == S.cfg.nodes
INSTANCE ShrinkTree WITH nodes <- TNodes
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1
Root == Build(S.cfg.root)
TTree == At("tree") /\ E.t = Flat(Root)
TEq == At("eq") /\ E.eq = Equal(Root, Build(S.cfg.other)) /\ E.ne = ~E.eq /\ E.rev = E.eq
TAll == At("all") /\ LET A == TLCEval(All(E.p, Root)) IN E.res = A.res /\ E.asked = A.asked
TImm == At("immediate") /\ E.vs = Immediate(Root)
TMin == At("min") /\ LET m == TLCEval(LocalMin(E.p, Root)) IN E.v = V(m.s) /\ E.n = m.n /\ E.asked = m.asked
TWalk == At("walk") /\ LET w == Walk(Root, E.path) IN
           /\ E.found = (w # None)
           /\ E.t = IF w = None THEN <<>> ELSE Flat(w)
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED sid
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TTree \/ TEq \/ TAll \/ TImm \/ TMin \/ TWalk \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
