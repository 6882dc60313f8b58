----------------------------- MODULE ContractTrace -----------------------------
(* cfg: nodes, script, size                                                     *)
(* try [size, x]: the filter (cfg.script: one with a condition on x) asked its  *)
(*   part for a value                                                           *)
(* val [v]: value of the current node, fail: generation failure instead         *)
(* kids [list]: values of all shrinks (of the first of them)                    *)
(* cover [vals]: values, and whether they were seen among very many draws from    *)
(* the nominal size on: exactly what satisfies the contract comes up              *)
EXTENDS VT
VARIABLES sid, l, tries, ok
tvars == <<sid, l, tries, ok>>
S == Scenarios[sid]
C == S.cfg
TNodes == C.nodes
INSTANCE Contract WITH nodes <- TNodes
E == S.ev[l]
At(e) == /\ l <= Len(S.ev) /\ S.ev[l].e = e /\ l' = l + 1 /\ UNCHANGED sid
Init0 == sid \in 1..Len(Scenarios) /\ l = 1 /\ tries = 0 /\ ok = FALSE
TTry == /\ At("try") /\ C.script /\ ~ok /\ tries < 100 /\ E.size = C.size + tries
        /\ tries' = tries + 1 /\ ok' = Sat(1, <<"w", E.x>>)
TVal == /\ At("val") /\ (Sat(1, E.v) = TRUE) /\ ~MustFail(1) /\ (C.script => ok) /\ UNCHANGED <<tries, ok>>
TFail == At("fail") /\ (IF C.script THEN tries = 100 /\ ~ok ELSE MayFail(1)) /\ UNCHANGED <<tries, ok>>
TKids == /\ At("kids")
         /\ TRUE = \A i \in 1..Len(E.list) : IF E.list[i][1] = "e" THEN E.list[i][2] = "GF" /\ MayFail(1) ELSE Sat(1, E.list[i])
         /\ UNCHANGED <<tries, ok>>
TCover == At("cover") /\ (\A i \in 1..Len(E.vals) : Sat(1, E.vals[i][1]) = E.vals[i][2]) /\ UNCHANGED <<tries, ok>>
TEnd == l = Len(S.ev) + 1 /\ l > 1 /\ l' = l + 1 /\ UNCHANGED <<sid, tries, ok>>
TDone == l = Len(S.ev) + 2 /\ UNCHANGED tvars
TNext == TTry \/ TVal \/ TFail \/ TKids \/ TCover \/ TEnd \/ TDone
TSpec == Init0 /\ [][TNext]_tvars
===============================================================================
