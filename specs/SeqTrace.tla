-------------------------------- MODULE SeqTrace --------------------------------
(* cfg.nodes: the expression; handle 1 is it.                                     *)
(* next [h, r, ev]   an element ([x] or []) and the evaluations made meanwhile    *)
(* copy [h, to]      to is a new handle or one assigned to                        *)
(* move [h, to]      h is not used any more                                       *)
(* drop [h]                                                                       *)
(* whole [h, ..]     what the operations on whole sequences give for the rest of  *)
(*                   the handle, cut after 15 elements; h itself stays            *)
(* eq [h, g, r]                                                                   *)
EXTENDS VT
VARIABLES sid, l, hs
tvars == <<sid, l, hs>>
S == Scenarios[sid]
TNodes == S.cfg.nodes
INSTANCE SeqLang WITH nodes <- TNodes, Bound <- 20, Fuel <- 100
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
None == [s |-> Empty, b |-> <<>>]
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ hs = [i \in 1..6 |-> IF i = 1 THEN [s |-> Mk(1, 0), b |-> <<>>] ELSE None]
(* evaluations may be made later than the machine does, never earlier or more     *)
RECURSIVE Without(_, _, _)
Without(b, e, i) == IF i > Len(b) THEN <<"none">> ELSE IF b[i] = e THEN <<"ok", SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))>> ELSE Without(b, e, i + 1)
RECURSIVE Spend(_, _, _)
Spend(b, ev, i) == IF i > Len(ev) THEN <<"ok", b>>
                   ELSE LET w == Without(b, ev[i], 1) IN IF w[1] = "none" THEN w ELSE Spend(w[2], ev, i + 1)
TPull == /\ At("next")
         /\ LET y == TLCEval(Pull(hs[E.h].s))
                w == TLCEval(Spend(hs[E.h].b \o y.ev, E.ev, 1)) IN
            /\ y.r = IF E.r = <<>> THEN End ELSE Val(E.r[1])
            /\ w[1] = "ok"
            /\ hs' = [hs EXCEPT ![E.h] = [s |-> y.s, b |-> w[2]]]
TCopy == At("copy") /\ hs' = [hs EXCEPT ![E.to] = hs[E.h]]
TMove == At("move") /\ hs' = [hs EXCEPT ![E.to] = hs[E.h], ![E.h] = None]
TDrop == At("drop") /\ hs' = [hs EXCEPT ![E.h] = None]
Cut(s) == LET X == Rest(s, 15) IN X.l
TWhole == /\ At("whole")
          /\ LET c == TLCEval(Cut(hs[E.h].s)) n == Len(c) IN
             /\ E.len = n /\ E.each = c /\ E.iter = c
             /\ E.last = IF n = 0 THEN <<>> ELSE <<c[n]>>
             /\ E.at = IF E.i < n THEN <<c[E.i + 1]>> ELSE <<>>
             /\ E.contains = (\E i \in 1..n : c[i] = E.x)
             /\ E.all = (\A i \in 1..n : Pred(E.p, c[i]) = Val(1))
             /\ E.any = (\E i \in 1..n : Pred(E.p, c[i]) = Val(1))
          /\ UNCHANGED hs
TEq == /\ At("eq") /\ E.r = (Cut(hs[E.h].s) = Cut(hs[E.g].s)) /\ E.ne = ~E.r /\ UNCHANGED hs
TSrc == At("src") /\ E.ok /\ UNCHANGED hs
TEnd == l = Len(S.ev) + 1 /\ l' = l + 1 /\ UNCHANGED <<sid, hs>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TPull \/ TCopy \/ TMove \/ TDrop \/ TWhole \/ TEq \/ TSrc \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
